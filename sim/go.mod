module verif.local/sim

go 1.24

require (
	github.com/clipperhouse/uax29/v2 v2.0.0
	github.com/clipperhouse/uax29/v2/internal/gen v0.0.0
)

require golang.org/x/text v0.16.0 // indirect

replace github.com/clipperhouse/uax29/v2 => /repo

replace github.com/clipperhouse/uax29/v2/internal/gen => /repo/internal/gen

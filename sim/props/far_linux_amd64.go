package props

const sysMemfdCreate = 319

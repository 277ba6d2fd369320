package props

const sysMemfdCreate = 279

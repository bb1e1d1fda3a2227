// Decimals of one small digit: everything rounds nearly always.
module scale {
  pure val ONE = 4
  pure val MAXRATE = 2
  pure val U128 = 100000
}

// Decimal scale of the exact instance (cosmwasm Decimal: 18 digits).  The small
// instances used for exhaustive checking overlay this file (spec/small/scale.qnt).
module scale {
  pure val ONE = 10^18
  pure val MAXRATE = 21979553 * 10^3      // 0.000000021979553 per second
  pure val U128 = 2^128 - 1
}

// Slice and bit helpers (utils/utils.go)

fn utils.EqualSliceUint64
  prop C11
  ensures iff(v, len(a) == len(b) && forall(i, 0, len(a), a[i] == b[i]))

fn utils.EqualSliceInt64
  prop C11
  ensures iff(v, len(a) == len(b) && forall(i, 0, len(a), a[i] == b[i]))

fn utils.EqualSliceUint8
  prop C11
  ensures iff(v, len(a) == len(b) && forall(i, 0, len(a), a[i] == b[i]))

fn utils.IsInSliceUint64
  prop C11
  ensures iff(v, !forall(i, 0, len(slice), slice[i] != x))

fn utils.IsInSliceInt
  prop C11
  ensures iff(v, !forall(i, 0, len(slice), slice[i] != x))

fn utils.MinUint64
  prop C11
  ensures r == min(a, b)

fn utils.MaxUint64
  prop C11
  ensures r == max(a, b)

fn utils.MinInt
  prop C11
  ensures r == min(a, b)

fn utils.MaxInt
  prop C11
  ensures r == max(a, b)

fn utils.MaxSliceUint64
  prop C11
  ensures forall(i, 0, len(slice), slice[i] <= max)
  ensures imp(len(slice) == 0, max == 0)
  ensures !forall(i, 0, len(slice), slice[i] != max) || max == 0

fn utils.RotateUint64Slice
  prop C11
  let r = mod(k, len(s))
  requires len(s) >= 1
  fresh result
  ensures len(result) == len(s)
  ensures forall(i, 0, len(s) - r, result[i] == s[i+r])
  ensures forall(i, len(s) - r, len(s), result[i] == s[i+r-len(s)])

fn utils.RotateInt64Slice
  prop C11
  let r = mod(k, len(s))
  requires len(s) >= 1
  fresh result
  ensures len(result) == len(s)
  ensures forall(i, 0, len(s) - r, result[i] == s[i+r])
  ensures forall(i, len(s) - r, len(s), result[i] == s[i+r-len(s)])

fn utils.RotateFloat64Slice
  prop C11
  let r = mod(k, len(s))
  requires len(s) >= 1
  fresh result
  ensures len(result) == len(s)
  ensures forall(i, 0, len(s) - r, result[i] == s[i+r])
  ensures forall(i, len(s) - r, len(s), result[i] == s[i+r-len(s)])

fn utils.RotateComplex128Slice
  prop C11
  let r = mod(k, len(s))
  requires len(s) >= 1
  fresh result
  ensures len(result) == len(s)
  ensures forall(i, 0, len(s) - r, result[i] == s[i+r])
  ensures forall(i, len(s) - r, len(s), result[i] == s[i+r-len(s)])

fn utils.RotateUint64Slots
  prop C11
  let h = div(len(s), 2)
  let r = mod(k, h)
  let r2 = mod(k, len(s) - h)
  requires len(s) >= 2
  fresh result
  ensures len(result) == len(s)
  ensures forall(i, 0, h - r, result[i] == s[i+r])
  ensures forall(i, h - r, h, result[i] == s[i+r-h])
  ensures forall(i, h, len(s) - r2, result[i] == s[i+r2])
  ensures forall(i, len(s) - r2, len(s), result[i] == s[i+r2-len(s)+h])

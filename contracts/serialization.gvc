// Byte encodings (utils/buffer.go, ring/ring_poly.go)

def be64(s, i) = s[i] * 72057594037927936 + s[(i) + 1] * 281474976710656 + s[(i) + 2] * 1099511627776 + s[(i) + 3] * 4294967296 + s[(i) + 4] * 16777216 + s[(i) + 5] * 65536 + s[(i) + 6] * 256 + s[(i) + 7]

def grown(b) = fresh(b.buf) || (base(b.buf) == old(base(b.buf)) && off(b.buf) == old(off(b.buf)) && cap(b.buf) == old(cap(b.buf)))

fn utils.Buffer.WriteUint8
  prop C07
  modifies b.buf
  modifies b.buf[len(b.buf):cap(b.buf)]
  ensures grown(b)
  ensures len(b.buf) == old(len(b.buf)) + 1
  ensures forall(i, 0, old(len(b.buf)), b.buf[i] == old(b.buf[i]))
  ensures b.buf[old(len(b.buf))] == c

fn utils.Buffer.WriteUint64
  prop C07
  modifies b.buf
  modifies b.buf[len(b.buf):cap(b.buf)]
  ensures grown(b)
  ensures len(b.buf) == old(len(b.buf)) + 8
  ensures forall(i, 0, old(len(b.buf)), b.buf[i] == old(b.buf[i]))
  ensures be64(b.buf, old(len(b.buf))) == v

fn utils.Buffer.ReadUint8
  prop C07
  requires len(b.buf) >= 1
  modifies b.buf
  ensures result == old(b.buf[0])
  ensures len(b.buf) == old(len(b.buf)) - 1
  ensures base(b.buf) == old(base(b.buf)) && off(b.buf) == old(off(b.buf)) + 1

fn utils.Buffer.ReadUint64
  prop C07
  requires len(b.buf) >= 8
  modifies b.buf
  ensures result == old(be64(b.buf, 0))
  ensures len(b.buf) == old(len(b.buf)) - 8
  ensures base(b.buf) == old(base(b.buf)) && off(b.buf) == old(off(b.buf)) + 8

fn ring.Poly.GetDataLen
  prop C07
  requires len(pol.Coeffs) >= 1 && len(pol.Coeffs) < 65536 && len(pol.Coeffs[0]) < 1099511627776
  ensures result == len(pol.Coeffs) * len(pol.Coeffs[0]) * 8 + ite(WithMetadata, 4, 0)

fn utils.Buffer.WriteUint8Slice
  prop C07
  loopinv grown(b)
  loopinv phi1 >= -1 && len(b.buf) == old(len(b.buf)) + phi1
  loopinv phi1 >= -1 && len(b.buf) == old(len(b.buf)) + phi1 + 1
  requires base(s) != base(b.buf) && len(b.buf) + len(s) < 1099511627776
  modifies b.buf
  modifies b.buf[len(b.buf):cap(b.buf)]
  ensures grown(b)
  ensures len(b.buf) == old(len(b.buf)) + len(s)
  ensures forall(i, 0, old(len(b.buf)), b.buf[i] == old(b.buf[i]))
  ensures forall(i, 0, len(s), b.buf[old(len(b.buf)) + i] == s[i])

fn utils.Buffer.WriteUint64Slice
  prop C07
  timeout 60
  loopinv grown(b)
  loopinv phi1 >= -1 && len(b.buf) == old(len(b.buf)) + 8 * phi1
  loopinv phi1 >= -1 && len(b.buf) == old(len(b.buf)) + 8 * (phi1 + 1)
  requires len(b.buf) + 8 * len(s) < 1099511627776
  modifies b.buf
  modifies b.buf[len(b.buf):cap(b.buf)]
  ensures grown(b)
  ensures len(b.buf) == old(len(b.buf)) + 8 * len(s)
  ensures forall(i, 0, old(len(b.buf)), b.buf[i] == old(b.buf[i]))
  ensures forall(i, 0, len(s), be64(b.buf, old(len(b.buf)) + 8 * i) == s[i])

fn utils.Buffer.ReadUint8Slice
  prop C07
  loopinv len(b.buf) == old(len(b.buf)) - phi1 && off(b.buf) == old(off(b.buf)) + phi1 && base(b.buf) == old(base(b.buf))
  loopinv len(b.buf) == old(len(b.buf)) - (phi1 + 1) && off(b.buf) == old(off(b.buf)) + phi1 + 1 && base(b.buf) == old(base(b.buf))
  requires len(b.buf) >= len(rec) && base(rec) != base(b.buf)
  modifies b.buf
  modifies rec[0:len(rec)]
  ensures forall(i, 0, len(rec), rec[i] == old(b.buf[i]))
  ensures len(b.buf) == old(len(b.buf)) - len(rec)
  ensures base(b.buf) == old(base(b.buf)) && off(b.buf) == old(off(b.buf)) + len(rec)

fn utils.Buffer.ReadUint64Slice
  prop C07
  loopinv len(b.buf) == old(len(b.buf)) - 8 * phi1 && off(b.buf) == old(off(b.buf)) + 8 * phi1 && base(b.buf) == old(base(b.buf))
  loopinv len(b.buf) == old(len(b.buf)) - 8 * (phi1 + 1) && off(b.buf) == old(off(b.buf)) + 8 * (phi1 + 1) && base(b.buf) == old(base(b.buf))
  requires len(b.buf) >= 8 * len(rec)
  modifies b.buf
  modifies rec[0:len(rec)]
  ensures forall(i, 0, len(rec), rec[i] == old(be64(b.buf, 8 * i)))
  ensures len(b.buf) == old(len(b.buf)) - 8 * len(rec)
  ensures base(b.buf) == old(base(b.buf)) && off(b.buf) == old(off(b.buf)) + 8 * len(rec)

fn ring.DecodeCoeffsNew
  prop C07
  requires pointer >= 0 && N >= 0 && N < 1099511627776 && numberModuli >= 0 && numberModuli < 65536 && len(coeffs) >= numberModuli
  requires pointer + 8 * N * numberModuli <= len(data)
  modifies coeffs[0:numberModuli]
  ensures isnil(result1)
  ensures result0 == pointer + 8 * N * numberModuli
  ensures forall(i, 0, numberModuli, fresh(coeffs[i]))
  ensures forall(i, 0, numberModuli, len(coeffs[i]) == N)
  ensures forall(i, 0, numberModuli, k, 0, N, coeffs[i][k] == be64(data, pointer + 8 * N * i + 8 * k))

def be32(s, i) = s[i] * 16777216 + s[(i) + 1] * 65536 + s[(i) + 2] * 256 + s[(i) + 3]
def encSmall(p) = len(p.Coeffs) >= 1 && len(p.Coeffs) < 65536 && len(p.Coeffs[0]) < 1099511627776

fn ring.DecodeCoeffsNew32
  prop C07
  requires pointer >= 0 && N >= 0 && N < 1099511627776 && numberModuli >= 0 && numberModuli < 65536 && len(coeffs) >= numberModuli
  requires pointer + 4 * N * numberModuli <= len(data)
  modifies coeffs[0:numberModuli]
  ensures isnil(result1)
  ensures result0 == pointer + 4 * N * numberModuli
  ensures forall(i, 0, numberModuli, fresh(coeffs[i]))
  ensures forall(i, 0, numberModuli, len(coeffs[i]) == N)
  ensures forall(i, 0, numberModuli, k, 0, N, coeffs[i][k] == be32(data, pointer + 4 * N * i + 4 * k))

fn ring.DecodeCoeffs
  prop C07
  requires pointer >= 0 && N >= 0 && N < 1099511627776 && numberModuli >= 0 && numberModuli < 65536 && len(coeffs) >= numberModuli
  requires pointer + 8 * N * numberModuli <= len(data)
  requires rowsOK(coeffs, N)
  modifies rows(coeffs, 0, numberModuli)
  ensures isnil(result1)
  ensures result0 == pointer + 8 * N * numberModuli
  ensures forall(i, 0, numberModuli, k, 0, N, coeffs[i][k] == be64(data, pointer + 8 * N * i + 8 * k))
  ensures forall(i, 0, numberModuli, k, N, len(coeffs[i]), coeffs[i][k] == old(coeffs[i][k]))

fn ring.WriteCoeffsTo
  prop C07
  requires pointer >= 0 && N >= 0 && N < 1099511627776 && numberModuli >= 0 && numberModuli < 65536 && len(coeffs) >= numberModuli
  requires pointer + 8 * N * numberModuli <= len(data)
  requires forall(i, 0, numberModuli, len(coeffs[i]) >= N)
  modifies data[pointer:pointer + 8 * N * numberModuli]
  ensures isnil(result1)
  ensures result0 == pointer + 8 * N * numberModuli
  ensures forall(i, 0, numberModuli, k, 0, N, be64(data, pointer + 8 * N * i + 8 * k) == coeffs[i][k])

fn ring.WriteCoeffsTo32
  prop C07
  requires pointer >= 0 && N >= 0 && N < 1099511627776 && numberModuli >= 0 && numberModuli < 65536 && len(coeffs) >= numberModuli
  requires pointer + 4 * N * numberModuli <= len(data)
  requires forall(i, 0, numberModuli, len(coeffs[i]) >= N)
  modifies data[pointer:pointer + 4 * N * numberModuli]
  ensures isnil(result1)
  ensures result0 == pointer + 4 * N * numberModuli
  ensures forall(i, 0, numberModuli, k, 0, N, be32(data, pointer + 4 * N * i + 4 * k) == mod(coeffs[i][k], 4294967296))

fn ring.Poly.GetDataLen32
  prop C07
  requires encSmall(pol)
  ensures result == len(pol.Coeffs) * len(pol.Coeffs[0]) * 4 + ite(WithMetadata, 4, 0)

def deg(p) = len(p.Coeffs[0])
def sizeOf(p) = 4 + 8 * len(p.Coeffs[0]) * len(p.Coeffs)
def sizeOf32(p) = 4 + 4 * len(p.Coeffs[0]) * len(p.Coeffs)
def square(p) = encSmall(p) && forall(i, 0, len(p.Coeffs), len(p.Coeffs[i]) == len(p.Coeffs[0]))
def header(p, s) = s[0] == bitlen(len(p.Coeffs[0])) - 1 && s[1] == len(p.Coeffs) && s[2] == ite(p.IsNTT, 1, 0) && s[3] == ite(p.IsMForm, 1, 0)

lemmadef pow2_bits(N, b) = imp(ispow2(N) && N >= 1 && b >= 1 && pow2(b - 1) <= N && N < pow2(b), pow2(b - 1) == N)

fn ring.Poly.WriteTo
  prop C07
  lemma pow2_bits(deg(pol), bitlen(deg(pol)))
  requires square(pol) && len(pol.Coeffs) < 256 && deg(pol) >= 1
  let fits = len(data) >= sizeOf(pol)
  modifies data[0:ite(fits, sizeOf(pol), 0)]
  ensures imp(!fits, !isnil(result1) && result0 == 0)
  ensures imp(fits, isnil(result1) && result0 == sizeOf(pol))
  ensures imp(fits && ispow2(deg(pol)), pow2(data[0]) == deg(pol))
  ensures imp(fits, header(pol, data))
  ensures imp(fits, forall(i, 0, len(pol.Coeffs), k, 0, deg(pol), be64(data, 4 + 8 * deg(pol) * i + 8 * k) == pol.Coeffs[i][k]))

fn ring.Poly.WriteTo32
  prop C07
  lemma pow2_bits(deg(pol), bitlen(deg(pol)))
  requires square(pol) && len(pol.Coeffs) < 256 && deg(pol) >= 1
  let fits = len(data) >= sizeOf32(pol)
  modifies data[0:ite(fits, sizeOf32(pol), 0)]
  ensures imp(!fits, !isnil(result1) && result0 == 0)
  ensures imp(fits, isnil(result1) && result0 == sizeOf32(pol))
  ensures imp(fits && ispow2(deg(pol)), pow2(data[0]) == deg(pol))
  ensures imp(fits, header(pol, data))
  ensures imp(fits, forall(i, 0, len(pol.Coeffs), k, 0, deg(pol), be32(data, 4 + 4 * deg(pol) * i + 4 * k) == mod(pol.Coeffs[i][k], 4294967296)))

fn ring.Poly.MarshalBinary
  prop C07
  requires square(pol) && len(pol.Coeffs) < 256 && deg(pol) >= 1
  ensures isnil(result1) && len(result0) == sizeOf(pol) && fresh(result0)
  ensures imp(ispow2(deg(pol)), pow2(result0[0]) == deg(pol))
  ensures header(pol, result0)
  ensures forall(i, 0, len(pol.Coeffs), k, 0, deg(pol), be64(result0, 4 + 8 * deg(pol) * i + 8 * k) == pol.Coeffs[i][k])

fn ring.Poly.DecodePolyNew
  prop C07
  requires len(data) >= 4 && data[0] < 40 && len(data) >= 4 + 8 * pow2(data[0]) * data[1]
  modifies pol.Coeffs
  modifies pol.Coeffs[0:len(pol.Coeffs)]
  modifies pol.IsNTT
  modifies pol.IsMForm
  let n = pow2(data[0])
  let l = data[1]
  ensures isnil(result1) && result0 == 4 + 8 * n * l
  ensures iff(pol.IsNTT, data[2] == 1) && iff(pol.IsMForm, data[3] == 1)
  ensures imp(old(len(pol.Coeffs)) != l, fresh(pol.Coeffs))
  ensures imp(old(len(pol.Coeffs)) == l, base(pol.Coeffs) == old(base(pol.Coeffs)) && off(pol.Coeffs) == old(off(pol.Coeffs)))
  ensures forall(i, 0, l, fresh(pol.Coeffs[i]))
  ensures len(pol.Coeffs) == l
  ensures forall(i, 0, l, len(pol.Coeffs[i]) == n)
  ensures forall(i, 0, l, k, 0, n, pol.Coeffs[i][k] == be64(data, 4 + 8 * n * i + 8 * k))

fn ring.Poly.DecodePolyNew32
  prop C07
  requires len(data) >= 4 && data[0] < 40 && len(data) >= 4 + 4 * pow2(data[0]) * data[1]
  modifies pol.Coeffs
  modifies pol.Coeffs[0:len(pol.Coeffs)]
  modifies pol.IsNTT
  modifies pol.IsMForm
  let n = pow2(data[0])
  let l = data[1]
  ensures isnil(result1) && result0 == 4 + 4 * n * l
  ensures iff(pol.IsNTT, data[2] == 1) && iff(pol.IsMForm, data[3] == 1)
  ensures imp(old(len(pol.Coeffs)) != l, fresh(pol.Coeffs))
  ensures imp(old(len(pol.Coeffs)) == l, base(pol.Coeffs) == old(base(pol.Coeffs)) && off(pol.Coeffs) == old(off(pol.Coeffs)))
  ensures forall(i, 0, l, fresh(pol.Coeffs[i]))
  ensures len(pol.Coeffs) == l
  ensures forall(i, 0, l, len(pol.Coeffs[i]) == n)
  ensures forall(i, 0, l, k, 0, n, pol.Coeffs[i][k] == be32(data, 4 + 4 * n * i + 4 * k))

fn ring.Poly.UnmarshalBinary
  prop C07
  requires len(data) >= 4 && data[0] < 40
  modifies pol.Coeffs
  modifies pol.Coeffs[0:len(pol.Coeffs)]
  modifies pol.IsNTT
  modifies pol.IsMForm
  let n = pow2(data[0])
  let l = data[1]
  ensures iff(isnil(result), div(len(data) - 4, 8) == n * l)
  ensures iff(pol.IsNTT, data[2] == 1) && iff(pol.IsMForm, data[3] == 1)
  ensures imp(isnil(result), forall(i, 0, l, fresh(pol.Coeffs[i])))
  ensures imp(isnil(result), len(pol.Coeffs) == l)
  ensures imp(isnil(result), forall(i, 0, l, len(pol.Coeffs[i]) == n))
  ensures imp(isnil(result), forall(i, 0, l, k, 0, n, pol.Coeffs[i][k] == be64(data, 4 + 8 * n * i + 8 * k)))

def encodable(p) = square(p) && len(p.Coeffs) < 256 && deg(p) >= 1
def headerAt(p, s, a) = s[a] == bitlen(len(p.Coeffs[0])) - 1 && s[(a) + 1] == len(p.Coeffs) && s[(a) + 2] == ite(p.IsNTT, 1, 0) && s[(a) + 3] == ite(p.IsMForm, 1, 0)
def coeffsAt(p, s, a) = forall(i, 0, len(p.Coeffs), k, 0, deg(p), be64(s, (a) + 4 + 8 * deg(p) * i + 8 * k) == p.Coeffs[i][k])
def qpSizeQ(p) = ite(isnil(p.Q), 0, sizeOf(p.Q))
def qpSizeP(p) = ite(isnil(p.P), 0, sizeOf(p.P))

fn rlwe.PolyQP.GetDataLen
  prop C07
  requires imp(!isnil(p.Q), encSmall(p.Q)) && imp(!isnil(p.P), encSmall(p.P))
  ensures imp(WithMetadata, dataLen == 2 + qpSizeQ(p) + qpSizeP(p))
  ensures imp(!WithMetadata, dataLen == ite(isnil(p.Q), 0, sizeOf(p.Q) - 4) + ite(isnil(p.P), 0, sizeOf(p.P) - 4))

fn rlwe.PolyQP.WriteTo
  prop C07
  requires len(data) >= 2
  requires imp(!isnil(p.Q), encodable(p.Q)) && imp(!isnil(p.P), encodable(p.P))
  let fits = len(data) >= 2 + qpSizeQ(p) + qpSizeP(p)
  modifies data[0:min(len(data), 2 + qpSizeQ(p) + qpSizeP(p))]
  ensures iff(fits, isnil(err))
  ensures data[0] == ite(isnil(p.Q), 0, 1) && data[1] == ite(isnil(p.P), 0, 1)
  ensures imp(fits, pt == 2 + qpSizeQ(p) + qpSizeP(p))
  ensures imp(fits && !isnil(p.Q), data[2] == bitlen(len(p.Q.Coeffs[0])) - 1)
  ensures imp(fits && !isnil(p.Q), data[3] == len(p.Q.Coeffs))
  ensures imp(fits && !isnil(p.Q), data[4] == ite(p.Q.IsNTT, 1, 0))
  ensures imp(fits && !isnil(p.Q), data[5] == ite(p.Q.IsMForm, 1, 0))
  ensures imp(fits && !isnil(p.Q), coeffsAt(p.Q, data, 2))
  ensures imp(fits && !isnil(p.P), headerAt(p.P, data, 2 + qpSizeQ(p)))
  ensures imp(fits && !isnil(p.P), coeffsAt(p.P, data, 2 + qpSizeQ(p)))

def decSize(s, a) = 4 + 8 * pow2(s[a]) * s[(a) + 1]
def decodedAt(p, s, a) = iff(p.IsNTT, s[(a) + 2] == 1) && iff(p.IsMForm, s[(a) + 3] == 1) && len(p.Coeffs) == s[(a) + 1] && forall(i, 0, s[(a) + 1], len(p.Coeffs[i]) == pow2(s[a]))
def decodedRows(p, s, a) = forall(i, 0, s[(a) + 1], k, 0, pow2(s[a]), p.Coeffs[i][k] == be64(s, (a) + 4 + 8 * pow2(s[a]) * i + 8 * k))
def wellFormed(s, a) = len(s) >= (a) + 4 && s[a] < 40 && len(s) >= (a) + decSize(s, a)

fn rlwe.PolyQP.DecodePolyNew
  prop C07
  requires len(data) >= 2
  let a = 2 + decSize(data, 2)
  requires imp(data[0] == 1, wellFormed(data, 2))
  requires imp(data[0] == 1 && data[1] == 1, wellFormed(data, a))
  requires imp(data[0] != 1 && data[1] == 1, wellFormed(data, 2))
  modifies p.Q
  modifies p.P
  ensures isnil(err)
  ensures imp(data[0] == 1, pt == a + ite(data[1] == 1, decSize(data, a), 0))
  ensures imp(data[0] != 1, pt == 2 + ite(data[1] == 1, decSize(data, 2), 0))
  ensures iff(isnil(p.Q), data[0] != 1) && iff(isnil(p.P), data[1] != 1)
  ensures imp(data[0] == 1, decodedAt(p.Q, data, 2))
  ensures imp(data[0] == 1, decodedRows(p.Q, data, 2))
  ensures imp(data[0] == 1 && data[1] == 1, decodedAt(p.P, data, a))
  ensures imp(data[0] != 1 && data[1] == 1, decodedAt(p.P, data, 2))
  ensures imp(data[0] == 1 && data[1] == 1, decodedRows(p.P, data, a))
  ensures imp(data[0] != 1 && data[1] == 1, decodedRows(p.P, data, 2))

fn rlwe.SecretKey.GetDataLen
  prop C07
  requires imp(!isnil(sk.Value.Q), encSmall(sk.Value.Q)) && imp(!isnil(sk.Value.P), encSmall(sk.Value.P))
  ensures imp(WithMetadata, dataLen == 2 + qpSizeQ(sk.Value) + qpSizeP(sk.Value))

fn rlwe.SecretKey.MarshalBinary
  prop C07
  requires imp(!isnil(sk.Value.Q), encodable(sk.Value.Q)) && imp(!isnil(sk.Value.P), encodable(sk.Value.P))
  ensures isnil(err) && fresh(data) && len(data) == 2 + qpSizeQ(sk.Value) + qpSizeP(sk.Value)
  ensures data[0] == ite(isnil(sk.Value.Q), 0, 1) && data[1] == ite(isnil(sk.Value.P), 0, 1)
  ensures imp(!isnil(sk.Value.Q), headerAt(sk.Value.Q, data, 2))
  ensures imp(!isnil(sk.Value.Q), coeffsAt(sk.Value.Q, data, 2))
  ensures imp(!isnil(sk.Value.P), headerAt(sk.Value.P, data, 2 + qpSizeQ(sk.Value)))
  ensures imp(!isnil(sk.Value.P), coeffsAt(sk.Value.P, data, 2 + qpSizeQ(sk.Value)))

fn rlwe.SecretKey.UnmarshalBinary
  prop C07
  requires len(data) >= 2
  let a = 2 + decSize(data, 2)
  requires imp(data[0] == 1, wellFormed(data, 2))
  requires imp(data[0] == 1 && data[1] == 1, wellFormed(data, a))
  requires imp(data[0] != 1 && data[1] == 1, wellFormed(data, 2))
  modifies sk.Value
  ensures isnil(err)
  ensures iff(isnil(sk.Value.Q), data[0] != 1) && iff(isnil(sk.Value.P), data[1] != 1)
  ensures imp(data[0] == 1, decodedAt(sk.Value.Q, data, 2))
  ensures imp(data[0] == 1, decodedRows(sk.Value.Q, data, 2))
  ensures imp(data[0] == 1 && data[1] == 1, decodedAt(sk.Value.P, data, a))
  ensures imp(data[0] != 1 && data[1] == 1, decodedAt(sk.Value.P, data, 2))
  ensures imp(data[0] == 1 && data[1] == 1, decodedRows(sk.Value.P, data, a))
  ensures imp(data[0] != 1 && data[1] == 1, decodedRows(sk.Value.P, data, 2))

def bytesQ(p) = 20 + 8 * len(p.qi)

fn rlwe.Parameters.MarshalBinarySize
  prop C07
  requires len(p.qi) < 65536 && len(p.pi) < 65536
  ensures result == 20 + 8 * (len(p.qi) + len(p.pi))

fn rlwe.Parameters.MarshalBinary
  prop C07
  timeout 60
  requires len(p.qi) < 256 && len(p.pi) < 256 && p.logN >= 0 && p.logN < 256 && p.ringType >= 0 && p.ringType < 256
  ensures isnil(result1)
  ensures imp(p.logN == 0, len(result0) == 0)
  ensures imp(p.logN != 0, len(result0) == 20 + 8 * (len(p.qi) + len(p.pi)))
  ensures imp(p.logN != 0, result0[0] == p.logN)
  ensures imp(p.logN != 0, result0[1] == len(p.qi))
  ensures imp(p.logN != 0, result0[2] == len(p.pi))
  ensures imp(p.logN != 0, result0[19] == p.ringType)
  ensures imp(p.logN != 0, be64(result0, 3) == mod(p.h, R))
  ensures imp(p.logN != 0, forall(i, 0, len(p.qi), be64(result0, 20 + 8 * i) == p.qi[i]))
  ensures imp(p.logN != 0, forall(i, 0, len(p.pi), be64(result0, 20 + 8 * len(p.qi) + 8 * i) == p.pi[i]))

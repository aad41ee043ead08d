From aaba7d548a4290250eeab682aacc65e5b0ff6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 01/34] fix: adding a point to its inverse gives the neutral
 element

The affine coordinates returned for the point at infinity were (0, 0), which is
neither neutral nor on the curve.
---
 pkg/curve/secp256k1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index da77bfc..7faf9e0 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -52,6 +52,9 @@ func (g sGroup) Add(a Point, b Point) Point {
 		resultY = new(big.Int).Set(as.y)
 	} else if (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0) {
 		resultX, resultY = g.curve.Double(as.x, as.y)
+	} else if as.x.Cmp(bs.x) == 0 {
+		// the points are inverse to each other
+		return g.Neutral()
 	} else {
 		resultX, resultY = g.curve.Add(as.x, as.y, bs.x, bs.y)
 	}
-- 
2.43.0


From 6a4c791b755aa2b079657d2e517501364906399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 02/34] fix: scaling or negating the neutral element does not
 panic

---
 pkg/curve/secp256k1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 7faf9e0..0a7fef8 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -72,6 +72,9 @@ func (g sGroup) Neg(a Point) Point {
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
+	if a.(sPoint).x == nil {
+		return g.Neutral()
+	}
 	if len(scale.Bytes()) > 32 {
 		scale.Mod(scale, g.Order())
 	}
-- 
2.43.0


From 179ceffa4b00e584c22cf6dbfa03aeedc142f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 03/34] fix: reduce every scalar modulo the order, without
 changing the argument

Scalars between the order and 2^256 gave the neutral element, and longer ones
were overwritten in the caller.
---
 pkg/curve/secp256k1.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 0a7fef8..576521e 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -75,18 +75,14 @@ func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
 	if a.(sPoint).x == nil {
 		return g.Neutral()
 	}
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
-	}
+	scale = new(big.Int).Mod(scale, g.Order())
 	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, scale.Bytes())
 	return sPoint{resultX, resultY}
 }
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarBaseMult(scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
-	}
+	scale = new(big.Int).Mod(scale, g.Order())
 	resultX, resultY := g.curve.ScalarBaseMult(scale.Bytes())
 	return sPoint{resultX, resultY}
 }
-- 
2.43.0


From 6bb8084f42c1670288b77d56b3c90af54d3e34a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 04/34] fix: decode the neutral element from the four bytes it
 is encoded to

Decode read eight bytes, so a neutral element alone was rejected and one in a
stream swallowed the beginning of the next value. Also do not depend on how the
reader splits the bytes.
---
 pkg/curve/secp256k1.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 576521e..b624397 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -126,27 +126,23 @@ func (g sGroup) Encode(a Point, w io.Writer) error {
 
 func (g sGroup) Decode(r io.Reader) (Point, error) {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return nil, err
-	}
-	if n < 8 {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected 8, got %d", n)
+	if n, err := io.ReadFull(r, lenBytes[:4]); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenX: expected 4, got %d: %v", n, err)
 	}
 
 	lenX := binary.BigEndian.Uint32(lenBytes[:4])
+	// encoding of a neutral element is [0 0 0 0]
 	if lenX == 0 {
 		return sPoint{nil, nil}, nil
 	}
 
+	if n, err := io.ReadFull(r, lenBytes[4:8]); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenY: expected 4, got %d: %v", n, err)
+	}
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
 	xyBytes := make([]byte, lenX+lenY)
-	n, err = r.Read(xyBytes)
-	if err != nil {
-		return nil, err
-	}
-	if uint32(n) < lenX+lenY {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected %d, got %d", lenX+lenY, n)
+	if n, err := io.ReadFull(r, xyBytes); err != nil {
+		return nil, fmt.Errorf("Too few bytes for x and y: expected %d, got %d: %v", lenX+lenY, n, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
-- 
2.43.0


From 2e521d7fa56ff607a2f30ffb747a0286c0a2d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 05/34] fix: reject encodings that are not points on the curve

Lying length fields made Decode panic, and coordinates off the curve were
accepted as group elements.
---
 pkg/curve/secp256k1.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index b624397..73460ec 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -140,12 +140,18 @@ func (g sGroup) Decode(r io.Reader) (Point, error) {
 		return nil, fmt.Errorf("Too few bytes for lenY: expected 4, got %d: %v", n, err)
 	}
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
+	if lenX > 32 || lenY > 32 {
+		return nil, fmt.Errorf("Too long coordinates: %d and %d bytes", lenX, lenY)
+	}
 	xyBytes := make([]byte, lenX+lenY)
 	if n, err := io.ReadFull(r, xyBytes); err != nil {
 		return nil, fmt.Errorf("Too few bytes for x and y: expected %d, got %d: %v", lenX+lenY, n, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
+	if x.Cmp(g.curve.P) >= 0 || y.Cmp(g.curve.P) >= 0 || !g.curve.IsOnCurve(x, y) {
+		return nil, fmt.Errorf("Decoded coordinates are not a point on the curve")
+	}
 
 	return sPoint{x, y}, nil
 }
-- 
2.43.0


From 113090409b416b95852c89d0dbd25f1853a0e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 06/34] fix: decoding a proof fails on truncated, oversized or
 malformed bytes

---
 pkg/crypto/zkpok/zkpok.go | 46 ++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index f017369..6b51d6b 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -96,32 +96,25 @@ func (z *ZKEGKnow) Encode(w io.Writer) error {
 //Decode decodes ZKEGKnow proof
 func (z *ZKEGKnow) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+	if n, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("Too few bytes: expected 8, got %d: %v", n, err)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	allBytes := make([]byte, z1Len+z2Len)
-
-	n, err = r.Read(allBytes)
-	if err != nil {
-		return err
+	if z1Len > 32 || z2Len > 32 {
+		return fmt.Errorf("Too long payload: %d and %d bytes", z1Len, z2Len)
 	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+	allBytes := make([]byte, z1Len+z2Len)
+	if n, err := io.ReadFull(r, allBytes); err != nil {
+		return fmt.Errorf("Too few bytes for payload: expected %d, got %d: %v", z1Len+z2Len, n, err)
 	}
 
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
 
-	return nil
+	return z.xy.Decode(r)
 }
 
 //ZKEGRerand implements proof that a comitment c2 is a proper rerandomization of commitment c1
@@ -281,30 +274,23 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+	if n, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("Too few bytes: expected 8, got %d: %v", n, err)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	allBytes := make([]byte, z1Len+z2Len)
-
-	n, err = r.Read(allBytes)
-	if err != nil {
-		return err
+	if z1Len > 32 || z2Len > 32 {
+		return fmt.Errorf("Too long payload: %d and %d bytes", z1Len, z2Len)
 	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+	allBytes := make([]byte, z1Len+z2Len)
+	if n, err := io.ReadFull(r, allBytes); err != nil {
+		return fmt.Errorf("Too few bytes for payload: expected %d, got %d: %v", z1Len+z2Len, n, err)
 	}
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
-	return nil
+	return z.xy.Decode(r)
 }
 
 // ZKDLog implements proof of knowledge of discrete logarithm
-- 
2.43.0


From 2fba36557e9a1034d540752dc849f5bb24c6b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 07/34] fix: the challenge of a proof of knowledge depends on
 its first message

---
 pkg/crypto/zkpok/zkpok.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 6b51d6b..1caa763 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -32,19 +32,21 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	sigma, _ := rand.Int(rand.Reader, order)
 	rho, _ := rand.Int(rand.Reader, order)
 
-	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
+	xy := fct.Create(rho, sigma)
+
+	//e is the randomly produced challenge, here hash of the statement and xy by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
 	if err := comm.Encode(buf); err != nil {
 		return nil, err
 	}
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	var z1, z2 big.Int
 
-	d := fct.Neutral()
-	d = d.Compose(fct.Create(rho, sigma), d.Exp(comm, e))
 	z1.Add(sigma, z1.Mul(e, rnd))
 	z2.Add(rho, z2.Mul(e, value))
-	xy := fct.Create(rho, sigma)
 	z1.Mod(&z1, order)
 	z2.Mod(&z2, order)
 
@@ -62,6 +64,9 @@ func (z *ZKEGKnow) Verify(fct *commitment.ElGamalFactory, comm *commitment.ElGam
 	if err := comm.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	d = d.Compose(z.xy, d.Exp(comm, e))
 
-- 
2.43.0


From 60e809a6711714aa64e345d875f9ac9d85ad2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 08/34] fix: a refresh proof convinces only of a refreshment of
 the same value

---
 pkg/crypto/zkpok/zkpok.go | 54 +++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 1caa763..238db9b 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -194,10 +194,9 @@ func (z *ZKEGReveal) Encode(w io.Writer) error { return nil }
 //Decode decodes ZKEGReveal proof
 func (z *ZKEGReveal) Decode(r io.Reader) error { return nil }
 
-//ZKEGRefresh implements proof that a comitment c2 is a proper refreshment of commitment c2
+//ZKEGRefresh implements proof that a comitment c2 is a proper refreshment of commitment c1
 type ZKEGRefresh struct {
 	z1 *big.Int
-	z2 *big.Int
 	xy *commitment.ElGamal
 }
 
@@ -205,9 +204,9 @@ type ZKEGRefresh struct {
 func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, r *big.Int) (*ZKEGRefresh, error) {
 	g := fct.Curve()
 	sigma, _ := rand.Int(rand.Reader, g.Order())
-	tau, _ := rand.Int(rand.Reader, g.Order())
+	xy := fct.Create(big.NewInt(0), sigma)
 
-	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
+	//e is the randomly produced challenge, here hash of the statement and xy by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
 	if err := c1.Encode(buf); err != nil {
 		return nil, err
@@ -215,20 +214,17 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	if err := c2.Encode(buf); err != nil {
 		return nil, err
 	}
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	var z1 big.Int
-	var z2 big.Int
 	z1.Add(sigma, z1.Mul(e, r))
-	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
-	z2.Mod(&z2, fct.Curve().Order())
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
 
 	return &ZKEGRefresh{
 		z1: &z1,
-		z2: &z2,
 		xy: xy,
 	}, nil
 }
@@ -242,14 +238,17 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 	if err := c2.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
+	// c2 - c1 has to be a commitment to 0 with a known randomizer
 	d := fct.Neutral()
-	dtmp := fct.Neutral()
-	d.Compose(fct.Create(big.NewInt(0), z.z1), d.Exp(c1, z.z2))
-	d.Compose(d, dtmp.Inverse(dtmp.Exp(c2, e)))
+	d.Compose(c2, d.Inverse(c1))
+	d.Compose(z.xy, d.Exp(d, e))
 
-	if !c1.Equal(d, z.xy) {
+	if !c1.Equal(d, fct.Create(big.NewInt(0), z.z1)) {
 		return fmt.Errorf("verification failed")
 	}
 	return nil
@@ -258,13 +257,10 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 //Encode encodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Encode(w io.Writer) error {
 	z1Bytes := z.z1.Bytes()
-	z2Bytes := z.z2.Bytes()
-	buf := make([]byte, 8, 8+len(z1Bytes)+len(z2Bytes))
-	binary.BigEndian.PutUint32(buf[0:4], uint32(len(z1Bytes)))
-	binary.BigEndian.PutUint32(buf[4:8], uint32(len(z2Bytes)))
+	buf := make([]byte, 4, 4+len(z1Bytes))
+	binary.BigEndian.PutUint32(buf, uint32(len(z1Bytes)))
 
 	buf = append(buf, z1Bytes...)
-	buf = append(buf, z2Bytes...)
 
 	if _, err := w.Write(buf); err != nil {
 		return err
@@ -278,22 +274,20 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
-	lenBytes := make([]byte, 8)
+	lenBytes := make([]byte, 4)
 	if n, err := io.ReadFull(r, lenBytes); err != nil {
-		return fmt.Errorf("Too few bytes: expected 8, got %d: %v", n, err)
+		return fmt.Errorf("Too few bytes: expected 4, got %d: %v", n, err)
 	}
 
-	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
-	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	if z1Len > 32 || z2Len > 32 {
-		return fmt.Errorf("Too long payload: %d and %d bytes", z1Len, z2Len)
+	z1Len := binary.BigEndian.Uint32(lenBytes)
+	if z1Len > 32 {
+		return fmt.Errorf("Too long payload: %d bytes", z1Len)
 	}
-	allBytes := make([]byte, z1Len+z2Len)
-	if n, err := io.ReadFull(r, allBytes); err != nil {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d: %v", z1Len+z2Len, n, err)
+	z1Bytes := make([]byte, z1Len)
+	if n, err := io.ReadFull(r, z1Bytes); err != nil {
+		return fmt.Errorf("Too few bytes for payload: expected %d, got %d: %v", z1Len, n, err)
 	}
-	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
-	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
+	z.z1 = new(big.Int).SetBytes(z1Bytes)
 	z.xy = &commitment.ElGamal{}
 	return z.xy.Decode(r)
 }
-- 
2.43.0


From b0cf4fc0f84281f220d219175f4d07d6289aa192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 09/34] fix: shares, products and hashes are reduced modulo the
 order of the group

---
 pkg/arith/config.go | 4 ++--
 pkg/crypto/hash.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/arith/config.go b/pkg/arith/config.go
index a9141da..465f61d 100644
--- a/pkg/arith/config.go
+++ b/pkg/arith/config.go
@@ -8,6 +8,6 @@ import (
 
 var (
 	randReader io.Reader = rand.Reader
-	// Q TODO: placeholder, should be replaced with order of the curve
-	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+	// Q is the order of the curve
+	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 )
diff --git a/pkg/crypto/hash.go b/pkg/crypto/hash.go
index c70ba74..0066476 100644
--- a/pkg/crypto/hash.go
+++ b/pkg/crypto/hash.go
@@ -7,8 +7,8 @@ import (
 	"golang.org/x/crypto/hkdf"
 )
 
-// Q TODO: placeholder, should be replaced with order of the curve
-var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+// Q is the order of the curve
+var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 
 //HashToBigInt takes []byte and returns its hash as a big.Int
 func HashToBigInt(msg []byte) *big.Int {
-- 
2.43.0


From 2c7dcfaa1388fafd1bb320756e35c0bed75eb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 10/34] fix: a malformed or fragmented frame fails the round of
 its receiver instead of crashing it

---
 pkg/sync/server.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index e56d740..b0e9667 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -2,9 +2,11 @@
 package sync
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
-
+	"io"
+	"math"
 	"os"
 	"strings"
 	"sync"
@@ -63,7 +65,7 @@ func (s *server) Start() {
 					}
 
 					buf := make([]byte, 2)
-					_, err = conn.Read(buf)
+					_, err = io.ReadFull(conn, buf)
 					if err != nil {
 						panic(err.Error())
 					}
@@ -275,25 +277,22 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			defer wg.Done()
 
 			dataLen := make([]byte, 8)
-			if n, err := s.inDataConn[pid].Read(dataLen); err != nil {
+			if n, err := io.ReadFull(s.inDataConn[pid], dataLen); err != nil {
 				errors[pid] = fmt.Errorf("receiveFromAll dataLen err: %v, %v", n, err)
 				return
 			}
-			l := int(binary.LittleEndian.Uint64(dataLen))
-			buf := make([]byte, l)
-			nRead := 0
-			for {
-				n, err := s.inDataConn[pid].Read(buf[nRead:])
-				if err != nil {
-					errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
-					return
-				}
-				nRead += n
-				if nRead == l {
-					break
-				}
-
+			l := binary.LittleEndian.Uint64(dataLen)
+			if l > math.MaxInt64 {
+				errors[pid] = fmt.Errorf("receiveFromAll: impossible length %v of data", l)
+				return
+			}
+			// the length comes from the peer, so memory is allocated only for what was really sent
+			received := &bytes.Buffer{}
+			if _, err := io.CopyN(received, s.inDataConn[pid], int64(l)); err != nil {
+				errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
+				return
 			}
+			buf := received.Bytes()
 
 			if len(buf) < 10 {
 				errors[pid] = fmt.Errorf("rid:%v: received too short data from %v", s.roundID, pid)
@@ -301,7 +300,8 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			}
 			id := binary.LittleEndian.Uint16(buf[:2])
 			if id != pid {
-				panic(fmt.Sprintf("some party uses wrong outDataConn: Expected %v, got %v", pid, id))
+				errors[pid] = fmt.Errorf("some party uses wrong outDataConn: Expected %v, got %v", pid, id)
+				return
 			}
 			roundID := binary.LittleEndian.Uint64(buf[2:10])
 			if int64(roundID) != s.roundID {
-- 
2.43.0


From 6d59f2c8690abd73e61eaa698a30042fa966628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 11/34] fix: a failed round reports every failed party, checks
 what did arrive and leaves no sender behind

---
 pkg/sync/server.go | 50 +++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index b0e9667..947f252 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -142,43 +142,49 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 
 	endRound := time.Now().Add(s.roundDuration)
 	var wg sync.WaitGroup
+	var unsent []uint16
 	var errSend error
 	wg.Add(1)
 	go func() {
 		defer wg.Done()
-		errSend = s.sendToAll(toSend)
+		unsent, errSend = s.sendToAll(toSend)
 	}()
 
-	data, missing, err := s.receiveFromAll(endRound)
-	if err != nil {
-		return wrap(err)
-	}
-
-	if len(missing) > 0 {
-		return newRoundError("Missing data from some parties", missing)
-	}
+	data, missing, errReceive := s.receiveFromAll(endRound)
 
+	// The sender has to finish within this round, otherwise it would interfere with the next one
 	wg.Wait()
 
+	errors := []error{}
+	failed := make([]bool, s.nProc)
+	if errReceive != nil {
+		errors = append(errors, errReceive)
+	}
 	if errSend != nil {
-		return wrap(errSend)
+		errors = append(errors, errSend)
+	}
+	for _, pid := range append(missing, unsent...) {
+		failed[pid] = true
 	}
-
-	errors := []error{}
-	wrong := []uint16{}
 	for pid := uint16(0); pid < s.nProc; pid++ {
-		if pid == s.pid {
+		if pid == s.pid || data[pid] == nil {
 			continue
 		}
-		err = check(pid, data[pid])
-		if err != nil {
+		if err := check(pid, data[pid]); err != nil {
 			errors = append(errors, err)
+			failed[pid] = true
+		}
+	}
+
+	wrong := []uint16{}
+	for pid := uint16(0); pid < s.nProc; pid++ {
+		if failed[pid] {
 			wrong = append(wrong, pid)
 		}
 	}
 
 	if len(wrong) > 0 {
-		return newRoundError(fmt.Errorf("rid:%v: Data sent by the parties %v is wrong with errors %v", s.roundID, wrong, errors).Error(), wrong)
+		return newRoundError(fmt.Errorf("rid:%v: Exchange with the parties %v failed with errors %v", s.roundID, wrong, errors).Error(), wrong)
 	}
 
 	// TODO: better timeout handling
@@ -190,7 +196,7 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 	return nil
 }
 
-func (s *server) sendToAll(toSend [][]byte) error {
+func (s *server) sendToAll(toSend [][]byte) ([]uint16, error) {
 	var data []byte
 	// Check if we send the same data to all parties
 	if len(toSend) == 1 {
@@ -245,6 +251,7 @@ func (s *server) sendToAll(toSend [][]byte) error {
 
 	wg.Wait()
 
+	unsent := []uint16{}
 	var b strings.Builder
 	for pid := uint16(0); pid < s.nProc; pid++ {
 		if pid == s.pid {
@@ -252,14 +259,15 @@ func (s *server) sendToAll(toSend [][]byte) error {
 		}
 		if errors[pid] != nil {
 			fmt.Fprintf(&b, "[sendToAll] pid: %d, error: %v\n", pid, errors[pid])
+			unsent = append(unsent, pid)
 		}
 	}
 
 	if b.Len() > 0 {
-		return fmt.Errorf("rid:%v: %v", s.roundID, b.String())
+		return unsent, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
 	}
 
-	return nil
+	return nil, nil
 }
 
 func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error) {
@@ -334,7 +342,7 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 	}
 
 	if b.Len() > 0 {
-		return nil, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
+		return data, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
 	}
 
 	return data, nil, nil
-- 
2.43.0


From c2cca678560ae544c36468817eef472e31403f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 12/34] fix: decoding a commitment does not allocate memory for
 data that was not sent

---
 pkg/arith/distributed_key.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/pkg/arith/distributed_key.go b/pkg/arith/distributed_key.go
index 92f11fa..c0570d8 100644
--- a/pkg/arith/distributed_key.go
+++ b/pkg/arith/distributed_key.go
@@ -77,33 +77,21 @@ func (nmc *NMCtmp) encode(w io.Writer) error {
 
 func (nmc *NMCtmp) decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("nmc wrong number of bytes in decode")
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("nmc wrong number of bytes in decode: %v", err)
 	}
 
-	lenData := int(binary.LittleEndian.Uint32(lenBytes[:4]))
-	nmc.dataBytes = make([]byte, lenData)
-	n, err = r.Read(nmc.dataBytes)
-	if err != nil {
-		return err
-	}
-	if n < lenData {
-		return fmt.Errorf("nmc wrong number of dataBytes in decode")
+	// the lengths come from another party, so memory is allocated only for what was really sent
+	dataBuf, zkpBuf := &bytes.Buffer{}, &bytes.Buffer{}
+	if _, err := io.CopyN(dataBuf, r, int64(binary.LittleEndian.Uint32(lenBytes[:4]))); err != nil {
+		return fmt.Errorf("nmc wrong number of dataBytes in decode: %v", err)
 	}
+	nmc.dataBytes = dataBuf.Bytes()
 
-	lenZkp := int(binary.LittleEndian.Uint32(lenBytes[4:8]))
-	nmc.zkpBytes = make([]byte, lenZkp)
-	n, err = r.Read(nmc.zkpBytes)
-	if err != nil {
-		return err
-	}
-	if n < lenZkp {
-		return fmt.Errorf("nmc wrong number of zkpBytes in decode")
+	if _, err := io.CopyN(zkpBuf, r, int64(binary.LittleEndian.Uint32(lenBytes[4:8]))); err != nil {
+		return fmt.Errorf("nmc wrong number of zkpBytes in decode: %v", err)
 	}
+	nmc.zkpBytes = zkpBuf.Bytes()
 
 	return nil
 
-- 
2.43.0


From 54b8c6f4ecdcf9f757f9f3417d3c981284b30544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 13/34] fix: resharing refuses a threshold above the number of
 parties

---
 pkg/arith/reshare.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 709c2a8..f433d82 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -13,11 +13,11 @@ import (
 
 // Reshare transforms the arithmetic secret into a threshold secret
 func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
-	if t < 1 {
-		return nil, fmt.Errorf("Cannot reshare with threshold %v", t)
+	nProc := len(ads.egs)
+	if t < 1 || int(t) > nProc {
+		return nil, fmt.Errorf("Cannot reshare with threshold %v among %v parties", t, nProc)
 	}
 
-	nProc := len(ads.egs)
 	order := ads.egf.Curve().Order()
 
 	var err error
-- 
2.43.0


From 7dbf74b0980d4753ffaf3c830c3615ee805ed735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 14/34] fix: a lying length in a reshared evaluation is an
 error, not a crash

---
 pkg/arith/reshare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index f433d82..5ee00ac 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -340,6 +340,9 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
 		}
 		l := binary.LittleEndian.Uint32(data[:4])
+		if int64(l) > int64(len(data)-4) {
+			return fmt.Errorf("data for pid %v is to short %v, expected at least %v", pid, len(data), l)
+		}
 		recvEvals[pid] = new(big.Int).SetBytes(data[4 : 4+l])
 		recvRand[pid] = new(big.Int).SetBytes(data[4+l:])
 		if !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {
-- 
2.43.0


From 9a6053b5908ee8be1cc39cfed9a700a06c43447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 15/34] fix: a dealer does not send unreduced randomizers,
 which leak the coefficients behind them

---
 pkg/arith/reshare.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 5ee00ac..21d6bc2 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -272,6 +272,8 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		// Randomizing element effectively used in the commitment is mult of the initial one and rerandomizing one
 		effectiveRandEval[pid] = big.NewInt(0)
 		effectiveRandEval[pid].Add(randEvalRefresh[pid], egEvalRands[pid])
+		// The receiver must not learn more than the value modulo the order
+		effectiveRandEval[pid].Mod(effectiveRandEval[pid], order)
 
 		evalRefreshComm[pid] = ads.egf.Neutral()
 		evalRefreshComm[pid].Compose(egEval[pid], ads.egf.Create(big.NewInt(0), randEvalRefresh[pid]))
-- 
2.43.0


From fb2ff9124ebb22ccb7a1781f37787624e19ad485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 16/34] fix: resharing returns the new share with its opening
 and keeps the input secret

---
 pkg/arith/reshare.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 21d6bc2..8568d25 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -433,10 +433,14 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		return nil, err
 	}
 
+	shareComms[ads.pid] = shareCommRefresh
+	shareRand.Add(shareRand, shareRandRefresh)
+	shareRand.Mod(shareRand, order)
+
 	tds := &TDSecret{*ads, t}
-	ads.skShare = share
-	ads.r = shareRandRefresh
-	ads.egs = shareComms
+	tds.skShare = share
+	tds.r = shareRand
+	tds.egs = shareComms
 
 	return tds, nil
 }
-- 
2.43.0


From f6b4d8ec6a7a58d1a1a637f8668f345c7c1fd179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 17/34] fix: revealing interpolates the shares of any t parties
 and fails with fewer

---
 pkg/arith/distributed_secret.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3f31379..3d9be4f 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -64,21 +64,33 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 		return nil
 	}
 
-	nProc := len(tds.egs)
-	if err := tds.server.Round(toSend, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
+	err := tds.server.Round(toSend, check)
+	if err != nil {
+		if rErr, ok := err.(*sync.RoundError); !ok || rErr.Missing() == nil {
 			return nil, err
 		}
 	}
 
-	sum := big.NewInt(0)
-	for _, secret := range secrets {
-		if secret != nil {
-			sum.Add(sum, secret)
+	// any t shares determine the secret
+	args := []*big.Int{}
+	shares := []*big.Int{}
+	for i, secret := range secrets {
+		if secret != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
+			shares = append(shares, secret)
 		}
 	}
+	if len(args) < int(tds.t) {
+		return nil, fmt.Errorf("Only %d of %d shares needed in Reveal are available: %v", len(args), tds.t, err)
+	}
+
+	order := tds.egf.Curve().Order()
+	sum := big.NewInt(0)
+	for i, arg := range args {
+		sum.Add(sum, new(big.Int).Mul(shares[i], lagrangeCoef(arg, args, order)))
+	}
 
-	return sum, nil
+	return sum.Mod(sum, order), nil
 }
 
 // Exp computes a common public key and its share related to this secret
-- 
2.43.0


From 4fbceedc73a194c499d0cbca1f6cfbba631d1b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 18/34] fix: the public key of a threshold secret is computed
 from any t parties' shares

---
 pkg/arith/distributed_secret.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3d9be4f..4c1d90c 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -100,6 +100,7 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 	pid := tds.pid
 	tdk := &TDKey{}
 	tdk.secret = tds
+	tdk.DKey.secret = &tds.DSecret
 	tdk.pkShares = make([]curve.Point, len(tds.egs))
 	tdk.pkShares[pid] = group.ScalarBaseMult(tds.skShare)
 
@@ -120,31 +121,27 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 		return nil
 	}
 
-	nProc := len(tds.egs)
-	if err := tds.server.Round([][]byte{toSendBuf.Bytes()}, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
+	err := tds.server.Round([][]byte{toSendBuf.Bytes()}, check)
+	if err != nil {
+		if rErr, ok := err.(*sync.RoundError); !ok || rErr.Missing() == nil {
 			return nil, err
 		}
 	}
 
-	var wg stdsync.WaitGroup
-	channel := make(chan curve.Point, nProc)
-	counter := tds.t
-
-	args := make([]*big.Int, tds.t)
-	values := make([]curve.Point, tds.t)
+	args := []*big.Int{}
+	values := []curve.Point{}
 	for i, value := range tdk.pkShares {
-		if value == nil {
-			continue
-		}
-		args[i] = big.NewInt(int64(i))
-		values[i] = value
-		counter = counter - 1
-		if counter == 0 {
-			break
+		if value != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
+			values = append(values, value)
 		}
 	}
+	if len(args) < int(tds.t) {
+		return nil, fmt.Errorf("Only %d of %d shares needed in Exp are available: %v", len(args), tds.t, err)
+	}
 
+	var wg stdsync.WaitGroup
+	channel := make(chan curve.Point, len(args))
 	for i, arg := range args {
 		wg.Add(1)
 		go func(i int, arg *big.Int) {
-- 
2.43.0


From d538fd4d1f2e02006c92970d5c6138a9d8558bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 19/34] fix: a linear combination belongs to its party and
 keeps the opening of its share

---
 pkg/arith/distributed_secret.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 4c1d90c..a864e41 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -226,6 +226,7 @@ func Gen(label string, server sync.Server, egf *commitment.ElGamalFactory, pid,
 // Lin computes locally a linear combination of the secrets
 func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds := &TDSecret{}
+	tds.pid = a.pid
 	tds.label = cLabel
 	tds.server = a.server
 	tds.egf = a.egf
@@ -234,6 +235,12 @@ func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds.skShare = new(big.Int).Mul(alpha, a.skShare)
 	tmp := new(big.Int).Mul(beta, b.skShare)
 	tds.skShare.Add(tds.skShare, tmp)
+	tds.skShare.Mod(tds.skShare, tds.egf.Curve().Order())
+
+	tds.r = new(big.Int).Mul(alpha, a.r)
+	tmp = new(big.Int).Mul(beta, b.r)
+	tds.r.Add(tds.r, tmp)
+	tds.r.Mod(tds.r, tds.egf.Curve().Order())
 
 	makeEGLin := func(aeg, beg *commitment.ElGamal) *commitment.ElGamal {
 		result := tds.egf.Neutral()
-- 
2.43.0


From cdc0e94589d590160726bb07644269100e7edced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 20/34] fix: multiplication adds up to the product of the two
 secrets

---
 pkg/arith/mult.go | 50 +++++++++++++----------------------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index f72db7e..a852f59 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -139,38 +139,24 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 
 // PrivMult computes the product ab
 func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.PrivateKey, pub *paillier.PublicKey, pubs []*paillier.PublicKey) (*big.Int, error) {
-	// For all parties with id < pid, we act as Alice in MtA for a and Act as Bob for b.
-	// For all parties with id > pid, we act as Bob in MtA for a and act as Alice for b.
+	// With every other party we run MtA twice: once as Alice for our a and its b, and once as Bob for our b and its a.
 
-	// Step 1. First round of MtA. For id < pid wait for their Enc(a') and send Enc(b), and
-	// for id > pid send Enc(a) and wait for their Enc(b').
+	// Step 1. First round of MtA. Send Enc(a) and wait for Enc(a') of every other party.
 
 	toSendBuf1 := make([][]byte, nProc)
 	encA, err := pub.Encrypt(a)
 	if err != nil {
 		return nil, err
 	}
-	encB, err := pub.Encrypt(b)
-	if err != nil {
-		return nil, err
-	}
 	for id := range toSendBuf1 {
-		if id < pid {
-			// Bob for b
-			toSendBuf1[id] = encB.Bytes()
-		} else if id > pid {
-			// Bob for a
+		if id != pid {
 			toSendBuf1[id] = encA.Bytes()
 		}
 	}
 
 	encShares := make([]*big.Int, nProc)
 	check := func(id uint16, data []byte) error {
-		if id < uint16(pid) {
-			// Alice for a
-			encShares[id] = new(big.Int).SetBytes(data)
-		} else if id > uint16(pid) {
-			// Alice for b
+		if id != uint16(pid) {
 			encShares[id] = new(big.Int).SetBytes(data)
 		}
 
@@ -181,8 +167,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		return nil, err
 	}
 
-	// Step 2. Second round of MtA. For id < pid send Enc(aa'-t) and wait for E(bb'-t), and
-	// for id > pid wait for Enc(aa'-t) and send Enc(bb'-t).
+	// Step 2. Second round of MtA. Send Enc(a'b-t) and wait for Enc(ab'-t).
 	myShares := make([]*big.Int, nProc) // collection of t_A
 	toSendBuf2 := make([][]byte, nProc)
 	genEncABmt := func(id int, share *big.Int) error {
@@ -213,29 +198,25 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	}
 
 	for id := range toSendBuf2 {
-		if id < pid {
-			// Alice for a
-			if err := genEncABmt(id, a); err != nil {
-				return nil, err
-			}
-		} else if id > pid {
-			// Alice for b
+		if id != pid {
 			if err := genEncABmt(id, b); err != nil {
 				return nil, err
 			}
 		}
 	}
 
-	abmts := make([]*big.Int, nProc) // collection of decrypted shares for Bob
+	abmts := make([]*big.Int, nProc) // collection of decrypted shares for Alice
+	halfN := new(big.Int).Rsh(pub.N, 1)
 	check = func(id uint16, data []byte) error {
 		if id != uint16(pid) {
 			var err error
-			// Bob for b
-			abmts[id] = new(big.Int).SetBytes(data)
-			abmts[id].Sub(abmts[id], pub.N)
-			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
+			if abmts[id], err = priv.Decrypt(new(big.Int).SetBytes(data)); err != nil {
 				return err
 			}
+			// ab'-t may be negative
+			if abmts[id].Cmp(halfN) > 0 {
+				abmts[id].Sub(abmts[id], pub.N)
+			}
 		}
 
 		return nil
@@ -254,9 +235,6 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		share.Add(share, t)
 		share.Add(share, abmts[id])
 	}
-	if len(share.Bytes()) > 32 {
-		share.Mod(share, Q)
-	}
 
-	return share, nil
+	return share.Mod(share, Q), nil
 }
-- 
2.43.0


From 7cc84cb60e752e5fd6ac9b2e10e2b8e83a452169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 21/34] fix: a product belongs to its party and can be used as
 any other secret

---
 pkg/arith/mult.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index a852f59..8bab193 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -18,8 +18,10 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 	nProc := len(a.egs)
 
 	c = &ADSecret{}
+	c.pid = a.pid
 	c.label = cLabel
 	c.server = a.server
+	c.egf = a.egf
 
 	// Step 1. Compute a product of commitments to b
 	pid := int(a.pid)
-- 
2.43.0


From 330c6679bb36982875fa94063089ea700dc78e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 22/34] fix: a zero mask in multiplication is a legal plaintext

---
 pkg/arith/mult.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 8bab193..4466265 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -185,6 +185,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		}
 
 		negMyShare := new(big.Int).Sub(pubs[id].N, myShares[id])
+		negMyShare.Mod(negMyShare, pubs[id].N)
 		enc, err := pubs[id].Encrypt(negMyShare)
 		if err != nil {
 			return err
-- 
2.43.0


From f513a46ed2b6653c5856b116d1b490e86d0256a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 23/34] fix: commitments are made under the commitment key, not
 under the signing key

---
 pkg/tecdsa/tecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 896a428..962791b 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -47,7 +47,7 @@ func Init(pid, nProc uint16, network sync.Server) (*Protocol, error) {
 	if err != nil {
 		return nil, err
 	}
-	p.egf = commitment.NewElGamalFactory(p.key.PublicKey())
+	p.egf = commitment.NewElGamalFactory(p.egKey.PublicKey())
 
 	return p, nil
 }
-- 
2.43.0


From 49e6b6d03fce60ff3724d496bf23ad33a9535af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 24/34] fix: signing divides by tau modulo the order and keeps
 r

---
 pkg/tecdsa/tecdsa.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 962791b..419de41 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -112,7 +112,16 @@ func (p *Protocol) Sign(message *big.Int) (*Signature, error) {
 		return nil, err
 	}
 
-	alpha, beta := new(big.Int).Div(message, tau), r.Div(r, tau)
+	order := p.group.Order()
+	tauInv := new(big.Int).ModInverse(tau, order)
+	if tauInv == nil {
+		return nil, fmt.Errorf("The presignature cannot be used, because its tau is not invertible")
+	}
+
+	alpha := new(big.Int).Mul(message, tauInv)
+	alpha.Mod(alpha, order)
+	beta := new(big.Int).Mul(r, tauInv)
+	beta.Mod(beta, order)
 	sTDSecret := arith.Lin(alpha, beta, ps.rho, ps.eta, "s")
 
 	s, err := sTDSecret.Reveal()
-- 
2.43.0


From afc4e4c7bc6e832902a5adbf48ef341b2ee4f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 25/34] fix: a key file contains the whole private key

---
 cmd/gen_keys/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index c38f299..1bd5dd9 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -39,10 +39,10 @@ func encodePaillierPrivateKey(pk *paillier.PrivateKey) string {
 	copy(buf[2:2+lenN], pk.PublicKey.N.Bytes())
 
 	binary.LittleEndian.PutUint16(buf[2+lenN:4+lenN], uint16(lenLambdaN))
-	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.PublicKey.N.Bytes())
+	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.LambdaN.Bytes())
 
-	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenN))
-	copy(buf[6+lenN+lenLambdaN:], pk.PublicKey.N.Bytes())
+	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenPhiN))
+	copy(buf[6+lenN+lenLambdaN:], pk.PhiN.Bytes())
 
 	return base64.StdEncoding.EncodeToString(buf)
 }
-- 
2.43.0


From 3ffe3c6810b8474d2afb869c46c04995ddb18a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 26/34] fix: key generation refuses a list with too few
 addresses

---
 cmd/gen_keys/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index 1bd5dd9..bc0bb35 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -79,7 +79,11 @@ func main() {
 		}
 		defer f.Close()
 		scanner := bufio.NewScanner(f)
-		for pid := 0; pid < nProc && scanner.Scan(); pid++ {
+		for pid := 0; pid < nProc; pid++ {
+			if !scanner.Scan() {
+				fmt.Fprintln(os.Stderr, "Too few addresses in ", os.Args[2])
+				return
+			}
 			addresses[pid] = scanner.Text()
 		}
 	}
-- 
2.43.0


From c878365b498ab47952166c3c9b7cd89cfc6633e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 27/34] fix: a malformed private key is refused instead of
 crashing the signer

---
 cmd/tecdsa/main.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 9db73b3..68084a1 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -36,34 +36,47 @@ type committee struct {
 	addresses  []string
 }
 
-func decodeBigInt(data []byte, name string) (*big.Int, error) {
-	lenX := binary.LittleEndian.Uint16(data[:2])
-	if len(data) < 2+int(lenX) {
-		return nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
+// decodeBigInt returns the first number encoded in data and the bytes that follow it
+func decodeBigInt(data []byte, name string) (*big.Int, []byte, error) {
+	if len(data) < 2 {
+		return nil, nil, fmt.Errorf("wrong encoding, data is too short for the length of %s", name)
 	}
-	return new(big.Int).SetBytes(data[2 : 2+lenX]), nil
+	lenX := int(binary.LittleEndian.Uint16(data[:2]))
+	data = data[2:]
+	if len(data) < lenX {
+		return nil, nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data))
+	}
+	x := new(big.Int).SetBytes(data[:lenX])
+	if x.Sign() == 0 {
+		return nil, nil, fmt.Errorf("wrong encoding, %s is missing", name)
+	}
+	return x, data[lenX:], nil
 }
 
 func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 	data, err := base64.StdEncoding.DecodeString(enc)
+	if err != nil {
+		return nil, err
+	}
 
 	pk := &paillier.PrivateKey{}
-	pk.PublicKey.N, err = decodeBigInt(data, "N")
+	pk.PublicKey.N, data, err = decodeBigInt(data, "N")
 	if err != nil {
 		return nil, err
 	}
-	data = data[2+len(pk.PublicKey.N.Bytes()):]
 
-	pk.LambdaN, err = decodeBigInt(data, "LambdaN")
+	pk.LambdaN, data, err = decodeBigInt(data, "LambdaN")
 	if err != nil {
 		return nil, err
 	}
-	data = data[2+len(pk.LambdaN.Bytes()):]
 
-	pk.PhiN, err = decodeBigInt(data, "PhiN")
+	pk.PhiN, data, err = decodeBigInt(data, "PhiN")
 	if err != nil {
 		return nil, err
 	}
+	if len(data) > 0 {
+		return nil, fmt.Errorf("wrong encoding, %d bytes after the private key", len(data))
+	}
 
 	return pk, nil
 }
-- 
2.43.0


From a5ba223b6bada21efe6c336f5105410f3f3136d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 28/34] fix: a negative identifier is outside the committee

---
 cmd/tecdsa/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 68084a1..b4ef6d2 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -247,7 +247,7 @@ func main() {
 		return
 	}
 
-	if member.pid >= len(committee.addresses) {
+	if member.pid < 0 || member.pid >= len(committee.addresses) {
 		fmt.Fprintf(logFile, "Wrong pid: %d.\n", member.pid)
 		return
 	}
-- 
2.43.0


From a803ccd7a594575fb88658981beeb723b56dd0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 29/34] fix: a nonpositive number of signatures is refused
 instead of dividing by it

---
 cmd/tecdsa/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index b4ef6d2..4234c5c 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -235,6 +235,11 @@ func main() {
 
 	options := getOptions()
 
+	if options.sigNumber < 1 {
+		fmt.Fprintf(logFile, "Wrong number of signatures: %d.\n", options.sigNumber)
+		return
+	}
+
 	member, err := getMember(options.pkPidFilename)
 	if err != nil {
 		fmt.Fprintln(logFile, err)
-- 
2.43.0


From 76ef91e8ca503dbc50ae81834ec6df97b94e2bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 30/34] fix: the signer refuses thresholds outside 1..n instead
 of truncating them to 16 bits

---
 cmd/tecdsa/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 4234c5c..22577f9 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -257,6 +257,11 @@ func main() {
 		return
 	}
 
+	if options.threshold < 1 || options.threshold > len(committee.addresses) {
+		fmt.Fprintf(logFile, "Wrong threshold: %d.\n", options.threshold)
+		return
+	}
+
 	net, err := tcp.NewServer(committee.addresses[member.pid], committee.addresses, zerolog.Nop())
 	if err != nil {
 		fmt.Fprintf(logFile, "Could not init tcp server due to %v.\n", err)
-- 
2.43.0


From 03bb704112e451f9fa0fcb6ed3a2f801d6518ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:20 +0000
Subject: [PATCH 31/34] fix: a connection without the greeting of a missing
 party is closed instead of crashing

---
 pkg/sync/server.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 947f252..6beab66 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -29,6 +29,7 @@ type server struct {
 	roundID                 int64
 	net                     network.Server
 	inDataConn, outDataConn []network.Connection
+	inMx                    sync.Mutex
 	prevRoundEnd            time.Time
 	startWG                 sync.WaitGroup
 }
@@ -67,14 +68,15 @@ func (s *server) Start() {
 					buf := make([]byte, 2)
 					_, err = io.ReadFull(conn, buf)
 					if err != nil {
-						panic(err.Error())
+						conn.Close()
+						continue
 					}
 
 					pid := binary.LittleEndian.Uint16(buf)
-					if s.inDataConn[pid] != nil {
-						panic(fmt.Sprintf("Connection with %d already established (my pid:%v)!", pid, s.pid))
+					if !s.accept(pid, conn) {
+						conn.Close()
+						continue
 					}
-					s.inDataConn[pid] = conn
 					return
 				}
 			}()
@@ -109,6 +111,17 @@ func (s *server) Start() {
 	}()
 }
 
+// accept makes conn the connection from pid, unless pid is not another party or is already connected
+func (s *server) accept(pid uint16, conn network.Connection) bool {
+	s.inMx.Lock()
+	defer s.inMx.Unlock()
+	if pid == s.pid || pid >= s.nProc || s.inDataConn[pid] != nil {
+		return false
+	}
+	s.inDataConn[pid] = conn
+	return true
+}
+
 func (s *server) Stop() {
 	s.startWG.Wait()
 	for pid := uint16(0); pid < s.nProc; pid++ {
-- 
2.43.0


From ad4ca3c51b416ff88e0c4be4c8d51be51fd8a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:20 +0000
Subject: [PATCH 32/34] fix: a greeting that cannot be sent is sent on a new
 connection instead of crashing

---
 pkg/sync/server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 6beab66..520c1c3 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -98,10 +98,12 @@ func (s *server) Start() {
 					buf := make([]byte, 2)
 					binary.LittleEndian.PutUint16(buf, s.pid)
 					if _, err = conn.Write(buf); err != nil {
-						panic(fmt.Sprintf("succesfully dialed %v but then %v", pid, err))
+						conn.Close()
+						continue
 					}
 					if err = conn.Flush(); err != nil {
-						panic(fmt.Sprintf("succesfully written %v but then %v", pid, err))
+						conn.Close()
+						continue
 					}
 					s.outDataConn[pid] = conn
 					return
-- 
2.43.0


From c2819d82f95e927106f290d66941150aaa766d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:42 +0000
Subject: [PATCH 33/34] fix: the mask of a multiplication is as wide as the
 key, so that it hides the product

---
 pkg/arith/mult.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 4466265..2616ca6 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -179,7 +179,8 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 			return err
 		}
 
-		myShares[id], err = rand.Int(randReader, Q)
+		// t is taken from half of the range of plaintexts, in order to hide a'b, which is as long as Q*Q
+		myShares[id], err = rand.Int(randReader, new(big.Int).Rsh(pubs[id].N, 1))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b17bb0845464545e1eaf5c9543a880beaeee5018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:53 +0000
Subject: [PATCH 34/34] fix: a number that is no ciphertext is blamed on its
 sender

The first exchange of PrivMult took any bytes for the encrypted share of
another party. A number out of range, or not invertible modulo the key,
was used all the same and made the protocol fail later at parties that
could not tell why. It is now an error of its sender, like other
malformed contributions.
---
 pkg/arith/mult.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 2616ca6..f0ea864 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -159,7 +159,12 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	encShares := make([]*big.Int, nProc)
 	check := func(id uint16, data []byte) error {
 		if id != uint16(pid) {
-			encShares[id] = new(big.Int).SetBytes(data)
+			enc := new(big.Int).SetBytes(data)
+			// ciphertexts are the invertible numbers below the square of the key
+			if enc.Cmp(pubs[id].NSquare()) >= 0 || new(big.Int).GCD(nil, nil, enc, pubs[id].N).Cmp(big.NewInt(1)) != 0 {
+				return fmt.Errorf("Wrong ciphertext of a share")
+			}
+			encShares[id] = enc
 		}
 
 		return nil
-- 
2.43.0


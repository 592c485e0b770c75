From 6aded65ef3070538191d0d04d649112dd0662f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 01/17] fix: apply every backward rule once, after its gradient
 is complete

The walk recursed over paths, so an interior tensor with several consumers
passed its partial gradients on once per path: gradients behind it were
over-counted and the work grew exponentially with graph depth.
---
 tensor/internal/gradtrack/back_propagation.go | 64 +++++++++++++++----
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/tensor/internal/gradtrack/back_propagation.go b/tensor/internal/gradtrack/back_propagation.go
index b95b706..331848b 100644
--- a/tensor/internal/gradtrack/back_propagation.go
+++ b/tensor/internal/gradtrack/back_propagation.go
@@ -1,6 +1,10 @@
 package gradtrack
 
-import "github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
+import (
+	"slices"
+
+	"github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
+)
 
 func BackPropagate(t tensor.Tensor) (err error) {
 	return backward(startEdge(t))
@@ -17,32 +21,70 @@ func startEdge(t tensor.Tensor) (edge *backwardEdge) {
 }
 
 func backward(edge *backwardEdge) (err error) {
-	gctx := gradContextOf(edge.target)
-
-	if !gctx.tracked {
+	// every context precedes the contexts its edges lead to;
+	// so, its gradient is complete when the edges are applied
+	gctxs := topologicalOrder(gradContextOf(edge.target))
+	if len(gctxs) == 0 {
 		return nil
-	} else {
+	}
+
+	for _, gctx := range gctxs {
 		gctx.bpdirty = true
 	}
 
-	grad, err := edge.gradFn()
+	err = applyEdge(edge)
 	if err != nil {
 		return
 	}
 
-	err = accumulateGrad(gctx, grad)
+	for _, gctx := range gctxs {
+		for _, e := range gctx.backEdges {
+			err = applyEdge(e)
+			if err != nil {
+				return
+			}
+		}
+	}
+
+	return nil
+}
+
+func applyEdge(edge *backwardEdge) (err error) {
+	gctx := gradContextOf(edge.target)
+
+	if !gctx.tracked {
+		return nil
+	}
+
+	grad, err := edge.gradFn()
 	if err != nil {
 		return
 	}
 
-	for _, e := range gctx.backEdges {
-		err = backward(e)
-		if err != nil {
+	return accumulateGrad(gctx, grad)
+}
+
+func topologicalOrder(root *GradContext) (gctxs []*GradContext) {
+	visited := make(map[*GradContext]bool)
+
+	var visit func(*GradContext)
+	visit = func(gctx *GradContext) {
+		if !gctx.tracked || visited[gctx] {
 			return
 		}
+
+		visited[gctx] = true
+		for _, e := range gctx.backEdges {
+			visit(gradContextOf(e.target))
+		}
+
+		gctxs = append(gctxs, gctx)
 	}
 
-	return nil
+	visit(root)
+	slices.Reverse(gctxs)
+
+	return gctxs
 }
 
 func accumulateGrad(gctx *GradContext, grad tensor.Tensor) (err error) {
-- 
2.43.0


From fe68d80fa6d900f4a26c3efb02b85f9c3474844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 02/17] fix: gradient of Pow with exponent 0 is zero, also at
 base 0

The rule computed 0 * x^-1, which is NaN at x = 0; clipping, Sigmoid and
the losses, which build constants with Pow(0), inherited it.
---
 tensor/internal/gradtrack/gradients.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index bde4f97..1d883a4 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -536,6 +536,10 @@ func Pow(y tensor.Tensor, x tensor.Tensor, a float64) (gctx *GradContext) {
 			{
 				target: x,
 				gradFn: func() (tensor.Tensor, error) {
+					if a == 0 {
+						return toZeros(x), nil
+					}
+
 					gy := y.Gradient()
 					gx := x.Pow(a - 1)
 					gx = gx.Scale(a)
-- 
2.43.0


From 481ac5a38349453588a19dae01114b884c6ebf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 03/17] fix: gradient of Dot restores the contracted dimension

The upstream gradient lacks the last dimension of the operands; multiplying
it directly aligned it with the wrong dimension (wrong values or a failing
back-propagation) for operands of rank 2 and higher.
---
 tensor/internal/gradtrack/gradients.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 1d883a4..5e2d5ee 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -990,14 +990,24 @@ func Dot(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 		backEdges: []*backwardEdge{
 			{
 				target: a,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(b)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := y.Gradient().UnSqueeze(len(y.Shape()))
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(b)
 				},
 			},
 			{
 				target: b,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(a)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := y.Gradient().UnSqueeze(len(y.Shape()))
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(a)
 				},
 			},
 		},
-- 
2.43.0


From c0939775c0f5f529c843fb6d11db795fdc67a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 04/17] fix: gradient of Patch covers exactly the patched block

The rule for the source sliced the upstream gradient with the caller's index,
in which an omitted or whole-dimension range means the target's dimension;
Patch places the source at offset 0 there. For a smaller source the gradient
had the wrong shape.
---
 tensor/internal/gradtrack/gradient_helpers.go | 15 +++++++++++++++
 tensor/internal/gradtrack/gradients.go        |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 17d3460..1cb3d25 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -10,6 +10,21 @@ func toOnes(t tensor.Tensor) (o tensor.Tensor) {
 	return t.Pow(0)
 }
 
+func patchedIndex(index []tensor.Range, p tensor.Tensor) (cindex []tensor.Range) {
+	shape := p.Shape()
+	cindex = make([]tensor.Range, len(shape))
+
+	for i, dim := range shape {
+		if i < len(index) && !(index[i].From == 0 && index[i].To == 0) {
+			cindex[i] = index[i]
+		} else {
+			cindex[i] = tensor.Range{From: 0, To: dim}
+		}
+	}
+
+	return cindex
+}
+
 func reducerBroadcasted(y tensor.Tensor, x tensor.Tensor, dim int) (o tensor.Tensor, err error) {
 	o, err = y.UnSqueeze(dim)
 	if err != nil {
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 5e2d5ee..8148f1d 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -67,6 +67,8 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 		return NewGradContext(false)
 	}
 
+	index = patchedIndex(index, p)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
-- 
2.43.0


From a2c8cefce370fa22176809ec1dff1f093168f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 05/17] fix: decouple Slice's gradient from the caller's index

The backward closure read the caller's slice; modifying it between the call
and BackPropagate changed the gradient.
---
 tensor/internal/gradtrack/gradients.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 8148f1d..0d70fe0 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -46,6 +46,9 @@ func Slice(y tensor.Tensor, x tensor.Tensor, index []tensor.Range) (gctx *GradCo
 		return NewGradContext(false)
 	}
 
+	// the caller may modify its slice before back-propagation
+	index = append([]tensor.Range(nil), index...)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
-- 
2.43.0


From 5614c8a4e1911d1b6de35951891b62faac2ce18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 06/17] fix: gradient of an implicitly broadcast operand is the
 sum over its copies

Operands expanded inside Add, Sub, Mul, Div, Dot and MatMul received the
mean of the upstream gradient instead of its sum. Explicit Broadcast keeps
its averaging rule, which the test suite fixes.
---
 tensor/internal/cputensor/cputensor_helpers.go |  5 +++++
 tensor/internal/gradtrack/gradients.go         | 14 ++++++++++++--
 tensor/internal/gradtrack/types.go             |  2 ++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/cputensor_helpers.go b/tensor/internal/cputensor/cputensor_helpers.go
index 6f1dc8a..880945e 100644
--- a/tensor/internal/cputensor/cputensor_helpers.go
+++ b/tensor/internal/cputensor/cputensor_helpers.go
@@ -3,6 +3,7 @@ package cputensor
 import (
 	"fmt"
 
+	"github.com/sahandsafizadeh/qeep/tensor/internal/gradtrack"
 	"github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 )
 
@@ -48,6 +49,8 @@ func broadcastForBinaryOp(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error
 
 	bct1 = t1.(*CPUTensor)
 	bct2 = t2.(*CPUTensor)
+	bct1.gctx = gradtrack.ImplicitBroadcast(bct1, ct1)
+	bct2.gctx = gradtrack.ImplicitBroadcast(bct2, ct2)
 
 	return bct1, bct2, nil
 }
@@ -77,6 +80,8 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 
 	bct1 = t1.(*CPUTensor)
 	bct2 = t2.(*CPUTensor)
+	bct1.gctx = gradtrack.ImplicitBroadcast(bct1, ct1)
+	bct2.gctx = gradtrack.ImplicitBroadcast(bct2, ct2)
 
 	return bct1, bct2, nil
 }
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 0d70fe0..fae0025 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -197,6 +197,16 @@ func Flatten(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 }
 
 func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
+	return broadcast(y, x, tensor.Tensor.AvgAlong)
+}
+
+// ImplicitBroadcast is for operands which an operation expands by itself;
+// the gradient of an element is the sum over the positions it is copied to.
+func ImplicitBroadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
+	return broadcast(y, x, tensor.Tensor.SumAlong)
+}
+
+func broadcast(y tensor.Tensor, x tensor.Tensor, reduceAlong dimReduceFunc) (gctx *GradContext) {
 	if anyIsBPDirty(x) {
 		return NewDirtyGradContext()
 	}
@@ -218,7 +228,7 @@ func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 
 					i := 0
 					for ldd-i > lds {
-						gy, err = gy.AvgAlong(0)
+						gy, err = reduceAlong(gy, 0)
 						if err != nil {
 							return
 						}
@@ -229,7 +239,7 @@ func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 					j := 0
 					for i < ldd {
 						if srcDims[j] != dstDims[i] {
-							gy, err = gy.AvgAlong(j)
+							gy, err = reduceAlong(gy, j)
 							if err != nil {
 								return
 							}
diff --git a/tensor/internal/gradtrack/types.go b/tensor/internal/gradtrack/types.go
index cc1cb8f..1a6dee1 100644
--- a/tensor/internal/gradtrack/types.go
+++ b/tensor/internal/gradtrack/types.go
@@ -15,3 +15,5 @@ type backwardEdge struct {
 }
 
 type chainGradFunc func() (tensor.Tensor, error)
+
+type dimReduceFunc func(t tensor.Tensor, dim int) (tensor.Tensor, error)
-- 
2.43.0


From 03079ff7e3fce2b6b19bbe29ca07b7adff68d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 07/17] fix: Softmax normalises along the configured dimension

The sums were right-aligned against the exponentials, which divides by the
wrong sums (or fails) for every dimension but 0.
---
 component/layers/activations/softmax.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/activations/softmax.go b/component/layers/activations/softmax.go
index d941710..d9ab619 100644
--- a/component/layers/activations/softmax.go
+++ b/component/layers/activations/softmax.go
@@ -46,6 +46,11 @@ func (c *Softmax) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 		return
 	}
 
+	s, err = s.UnSqueeze(c.dim)
+	if err != nil {
+		return
+	}
+
 	return x.Div(s)
 }
 
-- 
2.43.0


From ae1ddfe8c8e113dad804364edf0a46f0beb17f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 08/17] fix: gradient of Div's denominator does not square it

b^2 overflows or underflows for |b| beyond 1e+-154, where a/b and its
derivative are finite; Softmax reaches such sums for inputs of magnitude 355.
---
 tensor/internal/gradtrack/gradients.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index fae0025..e498d43 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -978,9 +978,13 @@ func Div(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 					gy := y.Gradient()
 
 					n := a.Scale(-1)
-					d := b.Pow(2)
 
-					gb, err := n.Div(d)
+					gb, err := n.Div(b)
+					if err != nil {
+						return
+					}
+
+					gb, err = gb.Div(b)
 					if err != nil {
 						return
 					}
-- 
2.43.0


From dc5ded4740d2d3faaa3dbfacacad831ab108504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 09/17] fix: TensorOf rejects data ragged across sub-slices

For depth 3 and 4 the inner lengths were only compared within each sub-slice,
so ragged data panicked or produced a tensor with missing elements.
---
 tensor/internal/validator/initializers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/validator/initializers.go b/tensor/internal/validator/initializers.go
index 89b137c..c737e22 100644
--- a/tensor/internal/validator/initializers.go
+++ b/tensor/internal/validator/initializers.go
@@ -71,7 +71,7 @@ func ValidateInputDataDimUnity(data any) (err error) {
 				return
 			}
 
-			if len(sub) != dim {
+			if len(sub) != dim || len(sub[0]) != len(v[0][0]) {
 				return dimUnityErr
 			}
 		}
@@ -88,7 +88,7 @@ func ValidateInputDataDimUnity(data any) (err error) {
 				return
 			}
 
-			if len(sub) != dim {
+			if len(sub) != dim || len(sub[0]) != len(v[0][0]) || len(sub[0][0]) != len(v[0][0][0]) {
 				return dimUnityErr
 			}
 		}
-- 
2.43.0


From b8ede000efebf43486ceccef5e8b99a30f53513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 10/17] fix: Input and FC report unset fields instead of
 panicking

Input.Forward called a nil SeedFunc and FC.Forward used nil parameters, which
the zero struct or the pointers of Weights() can leave behind.
---
 component/layers/fc.go    | 5 +++++
 component/layers/input.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/component/layers/fc.go b/component/layers/fc.go
index 7c2bf74..df0774c 100644
--- a/component/layers/fc.go
+++ b/component/layers/fc.go
@@ -133,6 +133,11 @@ func (c *FC) toValidInputs(xs []tensor.Tensor) (x tensor.Tensor, err error) {
 		return
 	}
 
+	if c.Weight == nil || c.Bias == nil {
+		err = fmt.Errorf("expected 'Weight' and 'Bias' not to be nil")
+		return
+	}
+
 	return x, nil
 }
 
diff --git a/component/layers/input.go b/component/layers/input.go
index c85a765..4e52cab 100644
--- a/component/layers/input.go
+++ b/component/layers/input.go
@@ -32,5 +32,10 @@ func (c *Input) validateInputs(xs []tensor.Tensor) (err error) {
 		return
 	}
 
+	if c.SeedFunc == nil {
+		err = fmt.Errorf("expected 'SeedFunc' not to be nil")
+		return
+	}
+
 	return nil
 }
-- 
2.43.0


From 7d1dfcd89c89f0d72c8dfbc24698b0129348402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 11/17] fix: RandU never returns the upper bound

rnd*(u-l)+l rounds up to u, often so for narrow intervals: half of the draws
of RandU([1, 1+ulp)) were the excluded bound.
---
 tensor/internal/cputensor/initializers.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/initializers.go b/tensor/internal/cputensor/initializers.go
index 7566020..25c886e 100644
--- a/tensor/internal/cputensor/initializers.go
+++ b/tensor/internal/cputensor/initializers.go
@@ -1,6 +1,10 @@
 package cputensor
 
-import "gonum.org/v1/gonum/stat/distuv"
+import (
+	"math"
+
+	"gonum.org/v1/gonum/stat/distuv"
+)
 
 func (t *CPUTensor) initWith(initFunc initializerFunc) {
 
@@ -45,7 +49,8 @@ func uniformRandomTensor(l, u float64, dims []int) (t *CPUTensor) {
 	t.dims = make([]int, len(dims))
 	copy(t.dims, dims)
 	t.initWith(func() any {
-		return distuv.Uniform{Min: l, Max: u}.Rand()
+		// scaling may round up to the upper bound
+		return math.Min(distuv.Uniform{Min: l, Max: u}.Rand(), math.Nextafter(u, l))
 	})
 
 	return t
-- 
2.43.0


From 4b3c92f8f0e63517c596003626780ba2cdfa882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 12/17] fix: NewFC leaves the caller's Initializers map
 unchanged

The default initializers were stored into it, so a second layer configured
with the same map drew its weights with the first layer's fan values.
---
 component/layers/fc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/component/layers/fc.go b/component/layers/fc.go
index df0774c..e5c29d7 100644
--- a/component/layers/fc.go
+++ b/component/layers/fc.go
@@ -160,8 +160,10 @@ func toValidFCConfig(iconf *FCConfig) (conf *FCConfig, err error) {
 		return
 	}
 
-	if conf.Initializers == nil {
-		conf.Initializers = make(map[string]Initializer)
+	// defaults must not end up in the caller's map
+	conf.Initializers = make(map[string]Initializer)
+	for key, initializer := range iconf.Initializers {
+		conf.Initializers[key] = initializer
 	}
 
 	if initializer, ok := conf.Initializers[fcWeightKey]; !ok {
-- 
2.43.0


From b62c62ee21f3fb9d08a66b1ade6f85634ae5b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 13/17] fix: extremum gradients do not treat tiny distinct
 values as ties

The rules of MaxAlong, MinAlong, ElMax and ElMin compared with Eq, whose
absolute tolerance makes e.g. 1e-250 and 0 equal: Relu's gradient at 1e-250
was 0.5 and MaxAlong's reached both elements.
---
 tensor/internal/gradtrack/gradients.go | 36 +++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index e498d43..462ab09 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -306,7 +306,7 @@ func MaxAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 						return
 					}
 
-					gx, err := x.Eq(yb)
+					gx, err := x.Ge(yb)
 					if err != nil {
 						return
 					}
@@ -342,7 +342,7 @@ func MinAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 						return
 					}
 
-					gx, err := x.Eq(yb)
+					gx, err := x.Le(yb)
 					if err != nil {
 						return
 					}
@@ -768,22 +768,22 @@ func ElMax(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					ga, err := y.Eq(a)
+					ga, err := a.Ge(b)
 					if err != nil {
 						return
 					}
 
-					eq, err := a.Eq(b)
+					gt, err := a.Gt(b)
 					if err != nil {
 						return
 					}
 
-					ga, err = ga.Sub(eq.Scale(0.5))
+					ga, err = ga.Add(gt)
 					if err != nil {
 						return
 					}
 
-					return gy.Mul(ga)
+					return gy.Mul(ga.Scale(0.5))
 				},
 			},
 			{
@@ -791,22 +791,22 @@ func ElMax(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					gb, err := y.Eq(b)
+					gb, err := b.Ge(a)
 					if err != nil {
 						return
 					}
 
-					eq, err := b.Eq(a)
+					gt, err := b.Gt(a)
 					if err != nil {
 						return
 					}
 
-					gb, err = gb.Sub(eq.Scale(0.5))
+					gb, err = gb.Add(gt)
 					if err != nil {
 						return
 					}
 
-					return gy.Mul(gb)
+					return gy.Mul(gb.Scale(0.5))
 				},
 			},
 		},
@@ -829,22 +829,22 @@ func ElMin(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					ga, err := y.Eq(a)
+					ga, err := a.Le(b)
 					if err != nil {
 						return
 					}
 
-					eq, err := a.Eq(b)
+					lt, err := a.Lt(b)
 					if err != nil {
 						return
 					}
 
-					ga, err = ga.Sub(eq.Scale(0.5))
+					ga, err = ga.Add(lt)
 					if err != nil {
 						return
 					}
 
-					return gy.Mul(ga)
+					return gy.Mul(ga.Scale(0.5))
 				},
 			},
 			{
@@ -852,22 +852,22 @@ func ElMin(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					gb, err := y.Eq(b)
+					gb, err := b.Le(a)
 					if err != nil {
 						return
 					}
 
-					eq, err := b.Eq(a)
+					lt, err := b.Lt(a)
 					if err != nil {
 						return
 					}
 
-					gb, err = gb.Sub(eq.Scale(0.5))
+					gb, err = gb.Add(lt)
 					if err != nil {
 						return
 					}
 
-					return gy.Mul(gb)
+					return gy.Mul(gb.Scale(0.5))
 				},
 			},
 		},
-- 
2.43.0


From bd53c08ff7979905f848ed2c53641c2f9359f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 14/17] fix: keep the Sigmoid gradient finite where e^-x
 overflows

---
 component/layers/activations/sigmoid.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/component/layers/activations/sigmoid.go b/component/layers/activations/sigmoid.go
index 4a47b80..e6d0069 100644
--- a/component/layers/activations/sigmoid.go
+++ b/component/layers/activations/sigmoid.go
@@ -9,6 +9,9 @@ import (
 type Sigmoid struct {
 }
 
+// sigmoidMinInput is the smallest input whose e^-x is finite; sigmoid is zero to double precision below it.
+const sigmoidMinInput = -709.
+
 func NewSigmoid() (c *Sigmoid) {
 	return &Sigmoid{}
 }
@@ -25,6 +28,12 @@ func (c *Sigmoid) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 
 func (c *Sigmoid) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 	_1 := x.Pow(0)
+
+	x, err = x.ElMax(_1.Scale(sigmoidMinInput))
+	if err != nil {
+		return
+	}
+
 	x = x.Scale(-1)
 	x = x.Exp()
 
-- 
2.43.0


From ea146bb1487b0d2bce1d918db153e038a69fcd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 15/17] fix: reject Reshape targets whose element count
 overflows

---
 tensor/internal/validator/shape_modifiers.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/validator/shape_modifiers.go b/tensor/internal/validator/shape_modifiers.go
index 05bc66a..d972203 100644
--- a/tensor/internal/validator/shape_modifiers.go
+++ b/tensor/internal/validator/shape_modifiers.go
@@ -1,6 +1,9 @@
 package validator
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 func ValidateTransposeDims(dims []int) (err error) {
 	if len(dims) < 2 {
@@ -79,9 +82,14 @@ func ValidateBroadcastSourceDimsAgainstTargetDims(srcDims, dstDims []int) (err e
 
 /* ----- helpers ----- */
 
+// dimsToNumElems expects positive dimensions and saturates where their product is not representable.
 func dimsToNumElems(dims []int) (elems int) {
 	elems = 1
 	for _, dim := range dims {
+		if elems > math.MaxInt/dim {
+			return math.MaxInt
+		}
+
 		elems *= dim
 	}
 
-- 
2.43.0


From 9ba1ed07c067850895be570f61ca098b826945d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 16/17] fix: Xavier scale when the sum of the fan values
 exceeds the integer range

---
 component/initializers/xavier_normal.go  | 2 +-
 component/initializers/xavier_uniform.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/initializers/xavier_normal.go b/component/initializers/xavier_normal.go
index 4df7b74..cc982ff 100644
--- a/component/initializers/xavier_normal.go
+++ b/component/initializers/xavier_normal.go
@@ -31,7 +31,7 @@ func NewXavierNormal(conf *XavierNormalConfig) (c *XavierNormal, err error) {
 }
 
 func (c *XavierNormal) Init(shape []int) (x tensor.Tensor, err error) {
-	s := math.Sqrt(2. / float64(c.fanIn+c.fanOut))
+	s := math.Sqrt(2. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandN(shape, 0., s, tensorInitConf())
 }
 
diff --git a/component/initializers/xavier_uniform.go b/component/initializers/xavier_uniform.go
index 575f73b..ff84e48 100644
--- a/component/initializers/xavier_uniform.go
+++ b/component/initializers/xavier_uniform.go
@@ -31,7 +31,7 @@ func NewXavierUniform(conf *XavierUniformConfig) (c *XavierUniform, err error) {
 }
 
 func (c *XavierUniform) Init(shape []int) (x tensor.Tensor, err error) {
-	r := math.Sqrt(6. / float64(c.fanIn+c.fanOut))
+	r := math.Sqrt(6. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandU(shape, -r, r, tensorInitConf())
 }
 
-- 
2.43.0


From 9c27bd8702bf7461a199d8b4c1191ac663e324b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 17/17] fix: RandU over a range wider than the largest float64

---
 tensor/internal/cputensor/initializers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/cputensor/initializers.go b/tensor/internal/cputensor/initializers.go
index 25c886e..eff40b5 100644
--- a/tensor/internal/cputensor/initializers.go
+++ b/tensor/internal/cputensor/initializers.go
@@ -49,8 +49,10 @@ func uniformRandomTensor(l, u float64, dims []int) (t *CPUTensor) {
 	t.dims = make([]int, len(dims))
 	copy(t.dims, dims)
 	t.initWith(func() any {
+		// drawn at half scale, as the width of the range may overflow;
 		// scaling may round up to the upper bound
-		return math.Min(distuv.Uniform{Min: l, Max: u}.Rand(), math.Nextafter(u, l))
+		v := 2 * distuv.Uniform{Min: l / 2, Max: u / 2}.Rand()
+		return math.Max(l, math.Min(v, math.Nextafter(u, l)))
 	})
 
 	return t
-- 
2.43.0


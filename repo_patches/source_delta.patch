From 705f8a9fbec62650f2df8b8a64d9532644687fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 01/79] fix: roll to a new chunk when the last one is exhausted

AppendRecords to a log whose last chunk is nearly full failed permanently:
the chunk reports ErrExhausted because its capacity estimation counts the
meta records as free space, and the log gave up instead of continuing with
a new chunk.
---
 pkg/storage/logfs/locallog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 7d126c5..24427c2 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -143,6 +143,11 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 			l.logger.Infof("creating new chunk id=%s for the logID=%s", ci.ID, lid)
 		}
 		arr, err := l.appendRecords(ctx, ci.ID, ci.RecordsCount == 0, recs)
+		if ci.RecordsCount > 0 && errors.Is(err, errors.ErrExhausted) {
+			// the existing chunk has no room for the records and cannot be grown anymore, will
+			// continue with a new one. Nothing is written into the chunk (arr.Written == 0)
+			err = nil
+		}
 		if err != nil {
 			gerr = err
 			break
-- 
2.43.0


From 555115bbcf472ceedab04e3207d5895ddc0ceb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 02/79] fix: don't crash on an append when its context is
 cancelled or the log is deleted

---
 pkg/storage/logfs/locallog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 24427c2..7393343 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -177,7 +177,11 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 	if added > 0 {
 		// use context.Background instead of ctx to avoid some unrecoverable error in case of the ctx is closed, but we have some
 		// data written
-		if err := l.LMStorage.UpsertChunkInfos(ctx, lid, cis); err != nil {
+		if err := l.LMStorage.UpsertChunkInfos(context.Background(), lid, cis); err != nil {
+			if errors.Is(err, errors.ErrNotExist) {
+				// the log is deleted while the data was being written, so there is nothing to corrupt
+				return nil, fmt.Errorf("the log id=%s does not exist: %w", lid, err)
+			}
 			// well, now it is unrecoverable!
 			l.logger.Errorf("could not write chunk IDs=%v for logID=%s, but the data is written into chunk. The data is corrupted now: %v", cis, lid, err)
 			panic("unrecoverable error, data is corrupted")
-- 
2.43.0


From 7a62015e630b0a360ce28fda4968800000e1aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 03/79] fix: report the error of counting the log records

---
 pkg/storage/logfs/locallog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 7393343..ad02684 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -377,7 +377,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 			if sid.Compare(ulidutils.ZeroULID) != 0 || len(idRanges) > 0 {
 				recCnt, err = l.countRecords(ctx, ci, request.Descending, considerSIDAndDesc(idRanges, sid, request.Descending))
 				if err != nil {
-					return 0, 0, nil
+					return 0, 0, err
 				}
 			}
 			count += recCnt
-- 
2.43.0


From 829a0d20d39b958ed41199495fd7c5cb93cee085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 04/79] fix: count the log total when the condition matches
 nothing

---
 pkg/storage/logfs/locallog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index ad02684..9ef8d13 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -359,7 +359,11 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 		return 0, 0, err
 	}
 	if len(request.Condition) > 0 && len(tis) == 0 {
-		return 0, 0, nil
+		// nothing matches the condition
+		fromIdx = len(cis)
+		if request.Descending {
+			fromIdx = -1
+		}
 	}
 
 	var total uint64
-- 
2.43.0


From 2da8c5e5ac8726475c698ea97fe062d08154fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 05/79] fix: treat a blank records condition as an empty one

---
 pkg/storage/logfs/locallog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 9ef8d13..2caf4e3 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -271,6 +271,7 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 		}
 	}
 
+	request.Condition = strings.TrimSpace(request.Condition)
 	tis, err := getIntervals(request.Condition)
 	if err != nil {
 		return nil, false, err
@@ -354,6 +355,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 		}
 	}
 
+	request.Condition = strings.TrimSpace(request.Condition)
 	tis, err := getIntervals(request.Condition)
 	if err != nil {
 		return 0, 0, err
@@ -471,7 +473,7 @@ func (l *localLog) countRecords(ctx context.Context,
 }
 
 func getIntervals(cond string) ([]intervals.Interval[time.Time], error) {
-	if len(strings.TrimSpace(cond)) == 0 {
+	if len(cond) == 0 {
 		return nil, nil
 	}
 	expr, err := ql.Parse(cond)
-- 
2.43.0


From 015c1b976e898afc271a82f2bfafdad4b0040fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 06/79] fix: respect sub-millisecond borders of the ctime
 conditions

---
 pkg/storage/logfs/locallog.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 2caf4e3..0947533 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -492,22 +492,27 @@ func getRanges(tis []intervals.Interval[time.Time], ci ChunkInfo) []idRange {
 	var ranges []idRange
 	for _, ti := range tis {
 		if ri, ok := tiBasis.Intersect(cti, ti); ok {
-			ranges = append(ranges, toRange(ri))
+			// the range may be empty, cause the interval can be shorter than the ULID time precision
+			if ir := toRange(ri); ir.start.Compare(ir.end) <= 0 {
+				ranges = append(ranges, ir)
+			}
 		}
 	}
 	return ranges
 }
 
+// toRange returns the range of IDs, which times are in the interval ti. The IDs have the millisecond
+// precision, but the interval borders may be specified more precisely
 func toRange(ti intervals.Interval[time.Time]) idRange {
-	if ti.IsClosed() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenL() {
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenR() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
-	} else { // open
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
+	start := ti.L.Truncate(time.Millisecond)
+	if !ti.LIn || start.Before(ti.L) {
+		start = start.Add(time.Millisecond)
+	}
+	end := ti.R.Truncate(time.Millisecond)
+	if !ti.RIn && end.Equal(ti.R) {
+		end = end.Add(-time.Millisecond)
 	}
+	return idRange{start: minULIDForTime(start), end: maxULIDForTime(end)}
 }
 
 func minULIDForTime(t time.Time) ulid.ULID {
-- 
2.43.0


From e2e76f17a56dbba00b931e4ee642712f0aa4713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 07/79] fix: build the intervals for negations, unsatisfiable
 conditions and out of range values

---
 pkg/ql/intervalbuilder.go | 44 +++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 92c5863..91dca25 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -47,6 +47,8 @@ func NewParamIntervalBuilder[T, K any](basis intervals.Basis[T], dialect Dialect
 
 // Build returns a list of intervals built from the AST expression.
 // Returned intervals are sorted by the L border.
+// The result is nil if the expression doesn't have any condition for the parameter, and it is
+// an empty (non-nil) slice if there is no value which meets the conditions.
 func (ib *ParamIntervalBuilder[T, K]) Build(expr *Expression) ([]intervals.Interval[T], error) {
 	var res []intervals.Interval[T]
 	for _, or := range expr.Or {
@@ -54,9 +56,13 @@ func (ib *ParamIntervalBuilder[T, K]) Build(expr *Expression) ([]intervals.Inter
 		if err != nil {
 			return nil, err
 		}
-		if len(tt) > 0 {
-			res = append(res, tt...)
+		if tt == nil {
+			continue
+		}
+		if res == nil {
+			res = []intervals.Interval[T]{}
 		}
+		res = append(res, tt...)
 	}
 	return ib.union(res), nil
 }
@@ -68,7 +74,7 @@ func (ib *ParamIntervalBuilder[T, K]) buildOR(or *OrCondition) ([]intervals.Inte
 		if err != nil {
 			return nil, err
 		}
-		if len(group) > 0 {
+		if group != nil {
 			groups = append(groups, group)
 		}
 	}
@@ -88,18 +94,17 @@ func (ib *ParamIntervalBuilder[T, K]) buildXCond(and *XCondition) ([]intervals.I
 		if err != nil {
 			return nil, err
 		}
-		if len(tt) > 0 {
-			res = append(res, tt...)
-		}
+		res = tt
 	}
-	if !and.Not {
+	if !and.Not || res == nil {
 		return res, nil
 	}
-	var negated []intervals.Interval[T]
+	// the complement of the union is the intersection of the complements
+	groups := [][]intervals.Interval[T]{{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}}
 	for _, t := range res {
-		negated = append(negated, ib.basis.Negate(t)...)
+		groups = append(groups, ib.basis.Negate(t))
 	}
-	return negated, nil
+	return ib.intersect(groups), nil
 }
 
 func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.Interval[T], error) {
@@ -206,7 +211,7 @@ func (ib *ParamIntervalBuilder[T, K]) intersect(groups [][]intervals.Interval[T]
 	prev := groups[0]
 	for i := 1; i < len(groups); i++ {
 		curr := groups[i]
-		var group []intervals.Interval[T]
+		group := []intervals.Interval[T]{}
 		for j := 0; j < len(prev); j++ {
 			for k := 0; k < len(curr); k++ {
 				if t, ok := ib.basis.Intersect(prev[j], curr[k]); ok {
@@ -220,6 +225,23 @@ func (ib *ParamIntervalBuilder[T, K]) intersect(groups [][]intervals.Interval[T]
 }
 
 func (ib *ParamIntervalBuilder[T, K]) getIntervals(op string, val T) []intervals.Interval[T] {
+	none := []intervals.Interval[T]{}
+	all := []intervals.Interval[T]{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}
+	cmpMin, cmpMax := ib.basis.CmpF(val, ib.basis.Min), ib.basis.CmpF(val, ib.basis.Max)
+	switch {
+	case cmpMin < 0: // all the basis values are greater than val
+		if op == ">" || op == ">=" || op == "!=" {
+			return all
+		}
+		return none
+	case cmpMax > 0: // all the basis values are less than val
+		if op == "<" || op == "<=" || op == "!=" {
+			return all
+		}
+		return none
+	case cmpMin == 0 && op == "<" || cmpMax == 0 && op == ">":
+		return none
+	}
 	switch op {
 	case "<":
 		return []intervals.Interval[T]{ib.basis.OpenR(ib.basis.Min, val)}
-- 
2.43.0


From 4cccc2ed5065dafc1a56db1a6c63943a09e9f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 08/79] fix: don't accept chained comparisons in the conditions

---
 pkg/ql/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 92be8f9..ebedefa 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -43,8 +43,8 @@ type (
 	// optional operation and second param
 	Condition struct {
 		FirstParam  Param  `  @@`
-		Op          string ` {@("<"|">"|">="|"<="|"!="|"="|"IN"|"LIKE")`
-		SecondParam *Param ` @@}`
+		Op          string ` [@("<"|">"|">="|"<="|"!="|"="|"IN"|"LIKE")`
+		SecondParam *Param ` @@]`
 	}
 
 	// Param describes a parameter either a constant (string or number), function, identifier or an array of constants
-- 
2.43.0


From cf03082e961ee28b80db279d40b4a00fc2ab5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 09/79] fix: report a malformed condition as an invalid
 argument

---
 pkg/ql/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index ebedefa..2dcbbc7 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
+	"github.com/solarisdb/solaris/golibs/errors"
 	"strings"
 )
 
@@ -157,7 +158,7 @@ func Parse(expr string) (*Expression, error) {
 	}
 	e, err := parser.ParseString("", expr)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse expression=%q: %w", expr, err)
+		return nil, fmt.Errorf("failed to parse expression=%q: %v: %w", expr, err, errors.ErrInvalid)
 	}
 	return e, nil
 }
-- 
2.43.0


From 4356797870d1a4341d3dbd285c7e5dfc5a0c1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 10/79] fix: refuse IN and LIKE for the parameters which don't
 support it when building intervals

---
 pkg/ql/intervalbuilder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 91dca25..012ca4c 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -19,6 +19,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/errors"
 	"github.com/solarisdb/solaris/pkg/intervals"
 	"sort"
+	"strings"
 )
 
 // ParamIntervalBuilder allows to build value intervals from the AST expression
@@ -144,6 +145,12 @@ func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.In
 	}
 
 	// operation
+	switch op := strings.ToUpper(cond.Op); op {
+	case "IN", "LIKE":
+		if dp1.Flags&PfInLike == 0 {
+			return nil, fmt.Errorf("the first parameter %s is not applicable for the %s: %w", p1.Name(false), op, errors.ErrInvalid)
+		}
+	}
 	if !ib.ops[cond.Op] { // skip not the ops we look for
 		return nil, nil
 	}
-- 
2.43.0


From 8cdb59e4b01fc5193adea948c7fc535716bfbda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 11/79] fix: next page ID of a single log query: descending
 order and empty results

---
 pkg/api/service.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index de44642..17f7dcc 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -118,8 +118,12 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 			return nil, errors.GRPCWrap(err)
 		}
 		nextID := ""
-		if more {
-			nextID = ulidutils.NextID(res[len(res)-1].ID)
+		if more && len(res) > 0 {
+			if request.Descending {
+				nextID = ulidutils.PrevID(res[len(res)-1].ID)
+			} else {
+				nextID = ulidutils.NextID(res[len(res)-1].ID)
+			}
 		}
 		return &solaris.QueryRecordsResult{Records: res, NextPageID: nextID}, nil
 	}
-- 
2.43.0


From 40b09c08d75c04c15ef8f96f912103c136802438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 12/79] fix: don't allocate the result by the limit provided in
 the request

---
 pkg/api/service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 17f7dcc..1011922 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -138,7 +138,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 
 	lim := request.Limit
 
-	res := make([]*solaris.Record, 0, lim)
+	var res []*solaris.Record
 	for mx.HasNext() && lim > 0 {
 		r, ok := mx.Next()
 		if !ok {
-- 
2.43.0


From b3622fa0000967f019b96bead5ad9d19c5374220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 13/79] fix: refuse to query or count more logs than can be
 merged, wrap the count error

---
 pkg/api/service.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 1011922..65c183d 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -102,6 +102,10 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 		if err != nil {
 			return nil, errors.GRPCWrap(err)
 		}
+		if qr.NextPageID != "" {
+			// the logs storage may restrict the limit, so it returns fewer logs than requested
+			return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", maxLogsToMerge, errors.ErrExhausted))
+		}
 		logIDs = make([]string, len(qr.Logs))
 		for i, l := range qr.Logs {
 			logIDs[i] = l.ID
@@ -171,6 +175,10 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 		if err != nil {
 			return nil, errors.GRPCWrap(err)
 		}
+		if qr.NextPageID != "" {
+			// the logs storage may restrict the limit, so it returns fewer logs than requested
+			return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", maxLogsToMerge, errors.ErrExhausted))
+		}
 		logIDs = make([]string, len(qr.Logs))
 		for i, l := range qr.Logs {
 			logIDs[i] = l.ID
@@ -190,7 +198,7 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 			Limit:   request.Limit},
 		)
 		if err != nil {
-			return nil, err
+			return nil, errors.GRPCWrap(err)
 		}
 
 		total += t
-- 
2.43.0


From ed8f94a3610562c6198f229447a8048a70ded215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 14/79] fix: don't panic on a negative limit of the logs query

---
 pkg/storage/buntdb/buntdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 1038772..8f164d6 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -288,7 +288,7 @@ func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteL
 
 func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
 	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
@@ -350,7 +350,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 	}
 
 	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
-- 
2.43.0


From f925361e9e46b95838830feb2d87965b6abccb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 15/79] fix: total of the logs query doesn't depend on the
 requested page

---
 pkg/storage/buntdb/buntdb.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 8f164d6..e2dfc68 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -294,15 +294,7 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 
 	logIDs := slices.Clone(qr.IDs)
 	slices.Sort(logIDs)
-
-	startIdx, _ := slices.BinarySearch(logIDs, qr.Page)
-	if startIdx == len(logIDs) {
-		return &solaris.QueryLogsResult{
-			Logs:       nil,
-			NextPageID: "",
-			Total:      int64(len(logIDs)),
-		}, nil
-	}
+	logIDs = slices.Compact(logIDs)
 
 	tx := mustBeginTx(s.db, false)
 	defer mustRollback(tx)
@@ -310,7 +302,7 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 	var total int64
 	var qLogs []*solaris.Log
 
-	for _, id := range logIDs[startIdx:] {
+	for _, id := range logIDs {
 		if ctx.Err() != nil {
 			return nil, fmt.Errorf("context error: %w", ctx.Err())
 		}
@@ -322,7 +314,7 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 			return nil, err
 		}
 		total++
-		if len(qLogs) <= limit { // = for pagination
+		if le.ID >= qr.Page && len(qLogs) <= limit { // = for pagination
 			qLogs = append(qLogs, le.Log)
 		}
 	}
@@ -369,7 +361,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 		}
 		if tstF(le.Log) {
 			total++
-			if len(qLogs) <= limit { // = for pagination
+			if le.ID >= qr.Page && len(qLogs) <= limit { // = for pagination
 				qLogs = append(qLogs, le.Log)
 			}
 		}
@@ -379,7 +371,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 	tx := mustBeginTx(s.db, false)
 	defer mustRollback(tx)
 
-	if err = tx.AscendRange("", logKey(qr.Page), logKey(ulidutils.MaxULID.String()), iter); err != nil {
+	if err = tx.AscendRange("", logKey(""), logKey(ulidutils.MaxULID.String()), iter); err != nil {
 		return nil, fmt.Errorf("iteration failed: %w", err)
 	}
 	if iterErr != nil {
-- 
2.43.0


From 13cee41f9544bcb1980b6c0949454efeeb7a3f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 16/79] fix: IDs generated concurrently are strictly increasing

---
 golibs/ulidutils/ulidutils.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/golibs/ulidutils/ulidutils.go b/golibs/ulidutils/ulidutils.go
index 0b7664f..3678de2 100644
--- a/golibs/ulidutils/ulidutils.go
+++ b/golibs/ulidutils/ulidutils.go
@@ -16,6 +16,7 @@ package ulidutils
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/google/uuid"
 	"github.com/oklog/ulid/v2"
@@ -26,9 +27,18 @@ var (
 	MaxULID, _ = ulid.Parse("7ZZZZZZZZZZZZZZZZZZZZZZZZZ")
 )
 
-// New returns new ulid.ULID.
+var (
+	newLock   sync.Mutex
+	newLastMs uint64
+)
+
+// New returns new ulid.ULID. The value is greater than any other one returned by the function before.
 func New() ulid.ULID {
-	return ulid.Make()
+	newLock.Lock()
+	defer newLock.Unlock()
+	// the entropy is monotonic for the same millisecond only, so the time must not go back
+	newLastMs = max(newLastMs, ulid.Now())
+	return ulid.MustNew(newLastMs, ulid.DefaultEntropy())
 }
 
 // NewUUID returns new ulid.ULID converted to uuid.UUID.
-- 
2.43.0


From 88dc5a0122fccf0968272caf0516babdcf0d474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 17/79] fix: don't lose the records when the chunk extension is
 interrupted or the initial size is changed

---
 pkg/storage/chunkfs/chunk.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 2780015..ec0c3f8 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -95,6 +95,9 @@ const (
 	// MaxChunkSize defines the maximum Chunk size. No Chunk may exceed the size
 	cMaxChunkSize = files.BlockSize * 512 * 1024
 	cHeaderSize   = 32
+	// cMetaEndOffset is the offset of the header field (8 bytes), which contains the end of the meta-records. It is
+	// less than the file size if the file was extended, but the meta-records were not moved to the new end yet
+	cMetaEndOffset = 12
 	// cMetaRecordSize is the size of one meta-record
 	cMetaRecordSize = 24
 )
@@ -193,6 +196,9 @@ func (c *Chunk) init(fullCheck bool) error {
 	if c.total < 0 {
 		return fmt.Errorf("the chunk is corrupted, wrong total=%d: %w", c.total, errCorrupted)
 	}
+	if err := c.adjustMetaEnd(); err != nil {
+		return err
+	}
 	c.freeOffset = cHeaderSize
 	if c.total > 0 {
 		mb, err := c.getMetaBuf(int(c.total)-1, 1)
@@ -355,19 +361,39 @@ func (c *Chunk) growForWrite(size int64) error {
 		newSize = c.cfg.MaxChunkSize
 	}
 
-	oldSize := c.mmf.Size()
 	if err := c.mmf.Grow(newSize); err != nil {
 		return err
 	}
+	return c.adjustMetaEnd()
+}
 
-	if c.total == 0 {
-		// empty Chunk
+// adjustMetaEnd moves the meta-records to the end of the file if the file was extended
+func (c *Chunk) adjustMetaEnd() error {
+	mEnd, err := c.mmf.Buffer(cMetaEndOffset, 8)
+	if err != nil {
+		return err
+	}
+	oldSize := int64(binary.BigEndian.Uint64(mEnd))
+	if oldSize == c.mmf.Size() {
 		return nil
 	}
+	if oldSize != 0 && c.total > 0 {
+		if err := c.moveMeta(oldSize); err != nil {
+			return err
+		}
+	}
+	// the field is updated at the end, so the records will be moved again if it was interrupted
+	binary.BigEndian.PutUint64(mEnd, uint64(c.mmf.Size()))
+	return nil
+}
 
-	// now, move meta to the end of the new Chunk
+// moveMeta moves the meta-records, which end at oldSize, to the end of the file
+func (c *Chunk) moveMeta(oldSize int64) error {
 	mSize := int(c.total * cMetaRecordSize)
 	mOffset := oldSize - int64(mSize)
+	if oldSize > c.mmf.Size() || mOffset < cHeaderSize {
+		return fmt.Errorf("the chunk is corrupted, wrong end of the meta-records=%d: %w", oldSize, errCorrupted)
+	}
 	oldMBuf, err := c.mmf.Buffer(mOffset, mSize)
 	if err != nil {
 		c.logger.Errorf("could not map meta-buffer with offset %d for size=%d: %v", mOffset, mSize, err)
-- 
2.43.0


From 14734180c16db8482c20154e7157ec31c2b7cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 18/79] fix: a failed or interrupted replication doesn't damage
 the local chunk

---
 pkg/storage/chunkfs/replicator.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index a2c5097..bf88d42 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -108,8 +108,9 @@ func (r *Replicator) DeleteChunk(ctx context.Context, cID string, flags int) err
 	var resErr error
 	if flags&RFRemoteSync != 0 {
 		if err := r.zipAndUploadChunk(ctx, cID); err != nil {
+			// the local file could be the only copy of the data, so keep it
 			r.logger.Warnf("error while syncing chunk cID=%s, flags=%d to remote: %s", cID, flags, err)
-			resErr = err
+			return err
 		}
 	}
 
@@ -177,7 +178,7 @@ func zipFile(cID, fn, zfn string) error {
 	if _, err := io.Copy(w, f); err != nil {
 		return err
 	}
-	return nil
+	return zw.Close()
 }
 
 func getStorageKey(cID string) string {
@@ -217,12 +218,21 @@ func (r *Replicator) unzip(zfn, fn string) error {
 	}
 	defer it.Close()
 
-	_ = os.Remove(fn)
-	f, err := os.Create(fn)
+	// the content goes to a temporary file first, so if something goes wrong the fn is not affected
+	tfn := fn + ".tmp"
+	f, err := os.Create(tfn)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = io.Copy(f, it)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tfn, fn)
+	}
+	if err != nil {
+		_ = os.Remove(tfn)
+	}
 	return err
 }
-- 
2.43.0


From 8025a94f4c0b636fc265eacb2f0a838fdc6d4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 19/79] fix: full check and reading of the chunks work for
 non-empty and empty chunks

---
 pkg/storage/chunkfs/chunk.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index ec0c3f8..4077849 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -215,11 +215,14 @@ func (c *Chunk) init(fullCheck bool) error {
 		return nil
 	}
 
-	mb, err := c.getMetaBuf(0, int(c.total))
+	if c.total == 0 {
+		return nil
+	}
+	mb, err := c.getMetaBuf(int(c.total)-1, int(c.total))
 	if err != nil {
 		return err
 	}
-	startOffs := c.freeOffset
+	startOffs := cHeaderSize
 	var id ulid.ULID
 	pMax := int(c.mmf.Size() - int64(c.total*cMetaRecordSize))
 	for i := 0; i < c.total; i++ {
@@ -420,10 +423,13 @@ func (c *Chunk) OpenChunkReader(descending bool) (*ChunkReader, error) {
 		c.lock.RUnlock()
 		return nil, fmt.Errorf("the chunk %s is closed: %w ", c.fn, errors.ErrClosed)
 	}
-	mb, err := c.getMetaBuf(c.total-1, c.total)
-	if err != nil {
-		c.lock.RUnlock()
-		return nil, err
+	var mb metaBuf
+	if c.total > 0 {
+		var err error
+		if mb, err = c.getMetaBuf(c.total-1, c.total); err != nil {
+			c.lock.RUnlock()
+			return nil, err
+		}
 	}
 
 	cr := new(ChunkReader)
-- 
2.43.0


From 8da11148546f258a300e563e044f73e8aabc5e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 20/79] fix: keep the local chunk until its remote copy is
 downloaded, don't release the chunk not acquired

---
 pkg/storage/chunkfs/provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index a884117..3bf9b2c 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -78,6 +78,7 @@ func (p *Provider) DeleteFileIfEmpty(cID string) {
 	}
 	if !p.CA.setDeleting(cID) {
 		p.logger.Errorf("DeleteFileIfEmpty(): something goes wrong, cannot mark chunk %s for deleting", cID)
+		return
 	}
 	defer p.CA.SetIdle(cID)
 	fn := p.GetFileNameByID(cID)
@@ -121,8 +122,7 @@ func (p *Provider) openChunk(ctx context.Context, cID string) (*Chunk, error) {
 	err = c.Open(false)
 	if errors.Is(err, errCorrupted) && !downloaded {
 		p.logger.Warnf("tried to open the chunk=%v, but got the corrupted error, will sync the file from remote and try again: %v", c, err)
-		_ = os.Remove(c.fn)
-		_, err = p.downloadFileIfNotExists(ctx, cID, fn)
+		err = p.Replicator.DownloadChunk(ctx, cID, RFRemoteSync)
 		if err == nil {
 			err = c.Open(false)
 		}
-- 
2.43.0


From 1e520e457897fdf2f32c5c4db8ae91563360f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 21/79] fix: an interrupted move of the overlapping
 meta-records can be continued

---
 pkg/storage/chunkfs/chunk.go | 56 +++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 4077849..1049e08 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -98,6 +98,9 @@ const (
 	// cMetaEndOffset is the offset of the header field (8 bytes), which contains the end of the meta-records. It is
 	// less than the file size if the file was extended, but the meta-records were not moved to the new end yet
 	cMetaEndOffset = 12
+	// cMetaMovedOffset is the offset of the header field (4 bytes), which contains the number of bytes of the
+	// meta-records, that are already moved to the new end of the file
+	cMetaMovedOffset = 20
 	// cMetaRecordSize is the size of one meta-record
 	cMetaRecordSize = 24
 )
@@ -370,45 +373,40 @@ func (c *Chunk) growForWrite(size int64) error {
 	return c.adjustMetaEnd()
 }
 
-// adjustMetaEnd moves the meta-records to the end of the file if the file was extended
+// adjustMetaEnd moves the meta-records to the end of the file if the file was extended. The progress is stored in
+// the header, so an interrupted operation will be continued the next time
 func (c *Chunk) adjustMetaEnd() error {
-	mEnd, err := c.mmf.Buffer(cMetaEndOffset, 8)
+	hdr, err := c.mmf.Buffer(0, cHeaderSize)
 	if err != nil {
 		return err
 	}
+	mEnd, mMoved := hdr[cMetaEndOffset:cMetaEndOffset+8], hdr[cMetaMovedOffset:cMetaMovedOffset+4]
+	size := c.mmf.Size()
 	oldSize := int64(binary.BigEndian.Uint64(mEnd))
-	if oldSize == c.mmf.Size() {
-		return nil
-	}
-	if oldSize != 0 && c.total > 0 {
-		if err := c.moveMeta(oldSize); err != nil {
+	if oldSize != 0 && oldSize != size && c.total > 0 {
+		mSize := int64(c.total * cMetaRecordSize)
+		if oldSize > size || oldSize-mSize < cHeaderSize {
+			return fmt.Errorf("the chunk is corrupted, wrong end of the meta-records=%d: %w", oldSize, errCorrupted)
+		}
+		buf, err := c.mmf.Buffer(0, int(size))
+		if err != nil {
 			return err
 		}
+		moved := int64(binary.BigEndian.Uint32(mMoved))
+		for moved < mSize {
+			// the source and the destination must not overlap, otherwise the copying could not be repeated
+			n := min(size-oldSize, mSize-moved)
+			copy(buf[size-moved-n:size-moved], buf[oldSize-moved-n:oldSize-moved])
+			moved += n
+			binary.BigEndian.PutUint32(mMoved, uint32(moved))
+		}
 	}
-	// the field is updated at the end, so the records will be moved again if it was interrupted
-	binary.BigEndian.PutUint64(mEnd, uint64(c.mmf.Size()))
-	return nil
-}
-
-// moveMeta moves the meta-records, which end at oldSize, to the end of the file
-func (c *Chunk) moveMeta(oldSize int64) error {
-	mSize := int(c.total * cMetaRecordSize)
-	mOffset := oldSize - int64(mSize)
-	if oldSize > c.mmf.Size() || mOffset < cHeaderSize {
-		return fmt.Errorf("the chunk is corrupted, wrong end of the meta-records=%d: %w", oldSize, errCorrupted)
-	}
-	oldMBuf, err := c.mmf.Buffer(mOffset, mSize)
-	if err != nil {
-		c.logger.Errorf("could not map meta-buffer with offset %d for size=%d: %v", mOffset, mSize, err)
-		return fmt.Errorf("could not Grow Chunk: %w", fmt.Errorf("could not map meta-buffer with offset %d for size=%d: %w", mOffset, mSize, errors.ErrInternal))
+	if oldSize != size {
+		binary.BigEndian.PutUint64(mEnd, uint64(size))
 	}
-	newMBuf, err := c.mmf.Buffer(c.mmf.Size()-int64(mSize), mSize)
-	if err != nil {
-		c.logger.Errorf("could not map meta-buffer with offset %d for size=%d: %v", mOffset, mSize, err)
-		return fmt.Errorf("could not Grow Chunk: %w", fmt.Errorf("could not map meta-buffer with offset %d for size=%d: %w", mOffset, mSize, errors.ErrInternal))
+	if binary.BigEndian.Uint32(mMoved) != 0 {
+		binary.BigEndian.PutUint32(mMoved, 0)
 	}
-	copy(newMBuf, oldMBuf)
-
 	return nil
 }
 
-- 
2.43.0


From be9e5c82f7d6fdc8c21fe7b6a295fff7ee71d68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:38 +0000
Subject: [PATCH 22/79] fix: full check refuses the records with a negative
 size

---
 pkg/storage/chunkfs/chunk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 1049e08..7fc3908 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -238,7 +238,7 @@ func (c *Chunk) init(fullCheck bool) error {
 		}
 		id = mr.ID
 		startOffs = int(mr.offset + mr.size)
-		if startOffs > pMax {
+		if mr.size < 0 || startOffs > pMax {
 			return fmt.Errorf("the record #%d size=%d exceed the maximum payload value: %w", i, mr.size, errCorrupted)
 		}
 	}
@@ -385,7 +385,7 @@ func (c *Chunk) adjustMetaEnd() error {
 	oldSize := int64(binary.BigEndian.Uint64(mEnd))
 	if oldSize != 0 && oldSize != size && c.total > 0 {
 		mSize := int64(c.total * cMetaRecordSize)
-		if oldSize > size || oldSize-mSize < cHeaderSize {
+		if oldSize > size || oldSize < mSize+cHeaderSize {
 			return fmt.Errorf("the chunk is corrupted, wrong end of the meta-records=%d: %w", oldSize, errCorrupted)
 		}
 		buf, err := c.mmf.Buffer(0, int(size))
-- 
2.43.0


From 5890a9792a2ba28f0fdd469c0e407ff188dd6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 23/79] fix: a wrong number of records of the chunk is reported
 as its corruption

---
 pkg/storage/chunkfs/chunk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 7fc3908..c8e3e8c 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -196,7 +196,7 @@ func (c *Chunk) init(fullCheck bool) error {
 		binary.BigEndian.PutUint32(hdr[vLen:vLen+4], uint32(0))
 	}
 	c.total = int(binary.BigEndian.Uint32(hdr[vLen : vLen+4]))
-	if c.total < 0 {
+	if c.total < 0 || int64(c.total)*cMetaRecordSize > c.mmf.Size()-cHeaderSize {
 		return fmt.Errorf("the chunk is corrupted, wrong total=%d: %w", c.total, errCorrupted)
 	}
 	if err := c.adjustMetaEnd(); err != nil {
-- 
2.43.0


From 5c3cc0588f7fef924239b42b4f9680c750cc6ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 24/79] fix: a failed creation wakes up the ones waiting for
 the place in the cache, nothing to delete if it failed

---
 golibs/container/lru/releasable.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/golibs/container/lru/releasable.go b/golibs/container/lru/releasable.go
index 6a45242..54e0ddd 100644
--- a/golibs/container/lru/releasable.go
+++ b/golibs/container/lru/releasable.go
@@ -132,7 +132,7 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		r.lock.Lock()
 		// if it was closed while we were creating the new object...
 		if r.closed {
-			if r.onDeleteF != nil {
+			if err == nil && r.onDeleteF != nil {
 				r.onDeleteF(k, v)
 			}
 			r.lock.Unlock()
@@ -145,6 +145,10 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		if err == nil {
 			rh = &rHolder[V]{refCounter: 1, value: v}
 			r.allKnown[k] = rh
+		} else if r.waiter != nil {
+			// the place is not taken, so let the ones who wait for it try again
+			close(r.waiter)
+			r.waiter = nil
 		}
 		r.lock.Unlock()
 
-- 
2.43.0


From 88be0a23a9f39ee7b07f55356300bc316f991f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:36 +0000
Subject: [PATCH 25/79] fix: the scanner stops when its context is closed, even
 if the scan takes longer than its period

---
 pkg/storage/chunkfs/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/scanner.go b/pkg/storage/chunkfs/scanner.go
index 9ac3528..5926ebb 100644
--- a/pkg/storage/chunkfs/scanner.go
+++ b/pkg/storage/chunkfs/scanner.go
@@ -122,7 +122,7 @@ func (s *Scanner) watcher(ctx context.Context) {
 }
 
 func (s *Scanner) watcherWithF(ctx context.Context, f func(ctx context.Context, dir string)) {
-	for {
+	for ctx.Err() == nil {
 		start := time.Now()
 		fis := files.ListDir(s.cfg.DataPath)
 		var wg sync.WaitGroup
-- 
2.43.0


From 311734d6fe5ac990098197e9b37332964427a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:36 +0000
Subject: [PATCH 26/79] fix: update the modification time of the chunk file on
 append, so the change is replicated

---
 pkg/storage/chunkfs/chunk.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index c8e3e8c..a8cc839 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -18,8 +18,10 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"os"
 	"sort"
 	"sync"
+	"time"
 
 	"github.com/oklog/ulid/v2"
 	"github.com/solarisdb/solaris/api/gen/solaris/v1"
@@ -329,6 +331,12 @@ func (c *Chunk) AppendRecords(recs []*solaris.Record) (AppendRecordsResult, erro
 	}
 	binary.BigEndian.PutUint32(hdr, uint32(c.total))
 
+	// writing into the mapped memory may leave the file modification time as is, but the Scanner relies on it
+	now := time.Now()
+	if err := os.Chtimes(c.fn, now, now); err != nil {
+		c.logger.Warnf("could not update the modification time of %s: %v", c.fn, err)
+	}
+
 	return AppendRecordsResult{Written: n, StartID: startID, LastID: lastID}, nil
 }
 
-- 
2.43.0


From fb705e8cf0718c10f2bf7b8452c50d32aefbcb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 27/79] fix: don't access the chunk state without the lock when
 reporting about it

---
 pkg/storage/chunkfs/caccessor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/chunkfs/caccessor.go b/pkg/storage/chunkfs/caccessor.go
index f4c4847..a1c12cc 100644
--- a/pkg/storage/chunkfs/caccessor.go
+++ b/pkg/storage/chunkfs/caccessor.go
@@ -79,11 +79,11 @@ func (cc *ChunkAccessor) openChunk(ctx context.Context, cID string) error {
 		}
 		if cr.state == cStateDeleting {
 			cc.lock.Unlock()
-			return fmt.Errorf("raise: open while deleting %v: %w", cr, errors.ErrNotExist)
+			return fmt.Errorf("raise: open while deleting cID=%s: %w", cID, errors.ErrNotExist)
 		}
 		if cr.opened {
 			cc.lock.Unlock()
-			return fmt.Errorf("unaccepted state in openChunk() %v: %w", cr, errors.ErrInternal)
+			return fmt.Errorf("unaccepted state in openChunk() cID=%s is already opened: %w", cID, errors.ErrInternal)
 		}
 		cr.opened = true
 		if cr.state == cStateIdle {
-- 
2.43.0


From fcc3d7fc53d745cc5fa35fbf05549df3a05b5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 28/79] fix: close the zip file if it cannot be read or
 completed

---
 golibs/files/ziputil.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/golibs/files/ziputil.go b/golibs/files/ziputil.go
index 0ad3417..a2d92a7 100644
--- a/golibs/files/ziputil.go
+++ b/golibs/files/ziputil.go
@@ -58,6 +58,7 @@ func NewZipIterator(zipFile string) (ZipIterator, error) {
 
 	zr, err := zip.NewReader(f, fi.Size())
 	if err != nil {
+		_ = f.Close()
 		return nil, err
 	}
 	return &zipIterator{zr: zr, idx: 0, f: f}, nil
@@ -113,8 +114,10 @@ func (zw *ZipWriter) Close() error {
 	}
 	err := zw.zw.Close()
 	zw.zw = nil
-	if err == nil && zw.f != nil {
-		err = zw.f.Close()
+	if zw.f != nil {
+		if cerr := zw.f.Close(); err == nil {
+			err = cerr
+		}
 		zw.f = nil
 	}
 	return err
-- 
2.43.0


From cd58e9105a743d8d236f1049b2a197fbf4752e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:25 +0000
Subject: [PATCH 29/79] fix: check the second parameter of a condition as well
 as the first one

---
 pkg/ql/evaluator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ql/evaluator.go b/pkg/ql/evaluator.go
index a71210c..c852947 100644
--- a/pkg/ql/evaluator.go
+++ b/pkg/ql/evaluator.go
@@ -159,7 +159,7 @@ func (eb *exprBuilder[T]) buildCond(cn *Condition) (err error) {
 
 	p2 := cn.SecondParam
 	if p2 == nil {
-		return fmt.Errorf("wrong condition for the param %s and the operation %q - no second parameter: %w", p2.Name(false), cn.Op, errors.ErrInvalid)
+		return fmt.Errorf("wrong condition for the param %s and the operation %q - no second parameter: %w", p1.Name(false), cn.Op, errors.ErrInvalid)
 	}
 	d2, ok := eb.dialect[p2.ID()]
 	if !ok {
@@ -171,6 +171,9 @@ func (eb *exprBuilder[T]) buildCond(cn *Condition) (err error) {
 	if d2.Flags&PfNop != 0 {
 		return fmt.Errorf("parameter %s cannot be compared (%s) in the condition: %w", p2.Name(false), cn.Op, errors.ErrInvalid)
 	}
+	if err := d2.check(p2); err != nil {
+		return err
+	}
 
 	op := strings.ToUpper(cn.Op)
 	switch op {
-- 
2.43.0


From 742c263bdde437be34671d4c68cf84616c113ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:52 +0000
Subject: [PATCH 30/79] fix: a value removed from the cache while it is being
 created must not get into the cache

---
 golibs/container/lru/ecache.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/golibs/container/lru/ecache.go b/golibs/container/lru/ecache.go
index fc651d5..d30e359 100644
--- a/golibs/container/lru/ecache.go
+++ b/golibs/container/lru/ecache.go
@@ -92,8 +92,16 @@ func (p *ECache[PK, K, V]) GetOrCreate(pk PK) (V, error) {
 
 		p.lock.Lock()
 		close(ch)
-		delete(p.inflight, k)
-		if err == nil {
+		// if the inflight creation is not ch anymore, the key was removed while the value was being created,
+		// so the value is obsolete and it must not get into the cache
+		actual := p.inflight[k] == ch
+		if actual {
+			delete(p.inflight, k)
+		}
+		if err == nil && !actual && p.onDeleteF != nil {
+			p.onDeleteF(pk, v)
+		}
+		if err == nil && actual {
 			p.items.Add(k, pair[PK, V]{pk, v})
 			if p.maxSize < p.items.Len() {
 				k, _ := p.items.First()
@@ -117,6 +125,8 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
+	// the value which is being created (if any) is obsolete
+	delete(p.inflight, k)
 	v, ok := p.items.Get(k)
 	if !ok {
 		return false
@@ -132,7 +142,9 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 func (p *ECache[PK, K, V]) Clear() int {
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	clear(p.inflight)
 	it := p.items.Iterator()
+	defer it.Close()
 	removed := 0
 	for it.HasNext() {
 		e, ok := it.Next()
-- 
2.43.0


From ea5427a02f1fa0ed703ccbbbeac5b4a043e79e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:52 +0000
Subject: [PATCH 31/79] fix: a blank condition deletes nothing, same as the
 empty one

---
 pkg/storage/buntdb/buntdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index e2dfc68..580d88c 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -187,7 +187,7 @@ func (s *Storage) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest)
 		if err != nil {
 			return nil, fmt.Errorf("deleteLogsByIDs(IDs=%v) failed: %w", req.IDs, err)
 		}
-	} else if len(req.Condition) > 0 {
+	} else if len(strings.TrimSpace(req.Condition)) > 0 {
 		dRes, err = s.deleteLogsByCondition(ctx, req)
 		if err != nil {
 			return nil, fmt.Errorf("deleteLogsByCondition(Cond=%s) failed: %w", req.Condition, err)
-- 
2.43.0


From 521fe83a60aff8c56aeeb2af01b1150669bbafb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:16 +0000
Subject: [PATCH 32/79] fix: delete of logs by a condition selects and deletes
 them in one transaction

---
 pkg/storage/buntdb/buntdb.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 580d88c..0918c02 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -200,6 +200,15 @@ func (s *Storage) deleteLogsByIDs(ctx context.Context, req storage.DeleteLogsReq
 	tx := mustBeginTx(s.db, true)
 	defer mustRollback(tx)
 
+	res, err := s.deleteLogsByIDsTx(ctx, tx, req)
+	if err != nil {
+		return nil, err
+	}
+	mustCommit(tx)
+	return res, nil
+}
+
+func (s *Storage) deleteLogsByIDsTx(ctx context.Context, tx *buntdb.Tx, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	var deletedIDs []string
 	for _, id := range slices.Clone(req.IDs) {
 		if ctx.Err() != nil {
@@ -217,7 +226,6 @@ func (s *Storage) deleteLogsByIDs(ctx context.Context, req storage.DeleteLogsReq
 		deletedIDs = append(deletedIDs, id)
 	}
 
-	mustCommit(tx)
 	return &solaris.DeleteLogsResult{
 		DeletedIDs: deletedIDs,
 	}, nil
@@ -268,22 +276,31 @@ func (s *Storage) markLogDeleted(tx *buntdb.Tx, logID string) error {
 }
 
 func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
+	// the logs are selected and deleted in one transaction, so they cannot be changed in between
+	tx := mustBeginTx(s.db, true)
+	defer mustRollback(tx)
+
 	var logIDs []string
-	qRes, err := s.queryLogsByCondition(ctx, storage.QueryLogsRequest{Condition: req.Condition, Limit: 1000}, req.MarkOnly)
+	qRes, err := s.queryLogsByConditionTx(ctx, tx, storage.QueryLogsRequest{Condition: req.Condition, Limit: 1000}, req.MarkOnly)
 	for err == nil && len(qRes.Logs) > 0 {
 		for _, log := range qRes.Logs {
 			logIDs = append(logIDs, log.ID)
 		}
 		qRes.Logs = nil
 		if len(qRes.NextPageID) > 0 {
-			qRes, err = s.queryLogsByCondition(ctx, storage.QueryLogsRequest{Condition: req.Condition,
+			qRes, err = s.queryLogsByConditionTx(ctx, tx, storage.QueryLogsRequest{Condition: req.Condition,
 				Page: qRes.NextPageID, Limit: 1000}, req.MarkOnly)
 		}
 	}
 	if err != nil {
 		return nil, err
 	}
-	return s.deleteLogsByIDs(ctx, storage.DeleteLogsRequest{IDs: logIDs, MarkOnly: req.MarkOnly})
+	res, err := s.deleteLogsByIDsTx(ctx, tx, storage.DeleteLogsRequest{IDs: logIDs, MarkOnly: req.MarkOnly})
+	if err != nil {
+		return nil, err
+	}
+	mustCommit(tx)
+	return res, nil
 }
 
 func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
@@ -332,6 +349,13 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 }
 
 func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
+	tx := mustBeginTx(s.db, false)
+	defer mustRollback(tx)
+
+	return s.queryLogsByConditionTx(ctx, tx, qr, skipMarkedDeleted)
+}
+
+func (s *Storage) queryLogsByConditionTx(ctx context.Context, tx *buntdb.Tx, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
 	expr, err := ql.Parse(qr.Condition)
 	if err != nil {
 		return nil, fmt.Errorf("condition=%q parse error=%v: %w", qr.Condition, err, errors.ErrInvalid)
@@ -368,9 +392,6 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 		return true
 	}
 
-	tx := mustBeginTx(s.db, false)
-	defer mustRollback(tx)
-
 	if err = tx.AscendRange("", logKey(""), logKey(ulidutils.MaxULID.String()), iter); err != nil {
 		return nil, fmt.Errorf("iteration failed: %w", err)
 	}
-- 
2.43.0


From 316e6ff7c4deda01a015a771dc09afec432c7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:02 +0000
Subject: [PATCH 33/79] fix: limit the nesting of the conditions, a deep one
 exhausts the stack and crashes the process

---
 pkg/ql/parser.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 2dcbbc7..0ded9a9 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -92,6 +92,10 @@ const (
 	ArrayParamID  = "__array__"
 )
 
+// maxNesting limits how deep the parentheses of an expression may be nested. The parser is recursive,
+// so it could run out of the stack otherwise
+const maxNesting = 1000
+
 // ID returns the param id by its type:
 // - string: StringParamID
 // - number: NumberParamID
@@ -156,9 +160,34 @@ func Parse(expr string) (*Expression, error) {
 	if len(expr) == 0 {
 		return &Expression{}, nil
 	}
+	if nesting(expr) > maxNesting {
+		return nil, fmt.Errorf("failed to parse expression: the parentheses are nested deeper than %d: %w", maxNesting, errors.ErrInvalid)
+	}
 	e, err := parser.ParseString("", expr)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse expression=%q: %v: %w", expr, err, errors.ErrInvalid)
 	}
 	return e, nil
 }
+
+// nesting returns how deep the parentheses in the expr are nested
+func nesting(expr string) int {
+	res, depth := 0, 0
+	var quote rune
+	for _, r := range expr {
+		switch {
+		case quote != 0:
+			if r == quote {
+				quote = 0
+			}
+		case r == '\'' || r == '"':
+			quote = r
+		case r == '(':
+			depth++
+			res = max(res, depth)
+		case r == ')':
+			depth--
+		}
+	}
+	return res
+}
-- 
2.43.0


From 9e563f504b4951dddc3909d2c9debc3fa81d5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 34/79] fix: a time literal must match its format as a whole,
 don't drop the milliseconds or mix up the date parts

---
 golibs/datetime/date.go | 12 +++++++++++-
 pkg/ql/datetime.go      | 12 +++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/golibs/datetime/date.go b/golibs/datetime/date.go
index 05fd84f..63010a6 100644
--- a/golibs/datetime/date.go
+++ b/golibs/datetime/date.go
@@ -198,6 +198,16 @@ func NewDefaultParser(usrFmts ...string) *parser {
 
 // NewParser builds new parser with the give formats
 func NewParser(fmts ...string) *parser {
+	return newParser("(?P<%v>%v)", fmts...)
+}
+
+// NewExactParser builds new parser with the given formats. The parser doesn't look for a date in the text, but
+// expects that the whole text is the date
+func NewExactParser(fmts ...string) *parser {
+	return newParser("^(?P<%v>%v)$", fmts...)
+}
+
+func newParser(groupExpr string, fmts ...string) *parser {
 	p := new(parser)
 	p.formats = make([]*Format, len(fmts))
 
@@ -205,7 +215,7 @@ func NewParser(fmts ...string) *parser {
 		noDate := !strings.ContainsAny(fmtStr, "YMD")
 		hasYear := !noDate && strings.Contains(fmtStr, "Y")
 		hasLocation := strings.Contains(fmtStr, "Z")
-		dRegexp := regexp.MustCompile(fmt.Sprintf("(?P<%v>%v)", dateGroup, regexpMap(fmtStr)))
+		dRegexp := regexp.MustCompile(fmt.Sprintf(groupExpr, dateGroup, regexpMap(fmtStr)))
 
 		grps := dRegexp.SubexpNames()
 		if len(grps) < 2 || grps[1] != dateGroup { // grps[0] is a whole line
diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index dc4c636..fd2bf12 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -25,10 +25,10 @@ import (
 )
 
 // dateTimeParser allows to parse date-time formats allowed for the date-time points
-var dateTimeParser = datetime.NewParser([]string{
+var dateTimeParser = datetime.NewExactParser([]string{
 	"MMM D, YYYY h:mm:ss P",
 	"DDD MMM _D HH:mm:ss YYYY",
-	"DDD MMM _D HH:mm:ss MST YYYY",
+	"DDD MMM _D HH:mm:ss ZZZ YYYY",
 	"DDD MMM DD HH:mm:ss ZZZZ YYYY",
 	"DDDD, YY-MMM-DD HH:mm:ss ZZZ",
 	"DDD, DD MMM YYYY HH:mm:ss ZZZ",
@@ -73,11 +73,17 @@ var dateTimeParser = datetime.NewParser([]string{
 	"YYYY-MM-DDTHH:mm:ssZZZZZ",
 	"YYYY-MM-DDTHH:mm:ssZZZZ",
 	"YYYY-MM-DDTHH:mm:ssZ",
+	"YYYY-MM-DDTHH:mm:ss.SSS",
 	"YYYY-MM-DDTHH:mm:ss",
 
 	// yyyy-mm-dd hh:mm:ss
 	"YYYY-MM-DD HH:mm:ss.SSS ZZZZ ZZZ",
 	"YYYY-MM-DD HH:mm:ss.SSS ZZZZ",
+	"YYYY-MM-DD HH:mm:ss.SSS ZZZZZ",
+	"YYYY-MM-DD HH:mm:ss.SSSZZZZZ",
+	"YYYY-MM-DD HH:mm:ss.SSSZ",
+	"YYYY-MM-DD HH:mm:ssZ",
+	"YYYY-MM-DD HH:mm:ss.SSS",
 	"YYYY-MM-DD HH:mm:ss ZZZZZ",
 	"YYYY-MM-DD HH:mm:ssZZZZZ",
 	"YYYY-MM-DD HH:mm:ss ZZZZ ZZZ",
@@ -146,7 +152,7 @@ func parseDateTime(dt0 string) (time.Time, error) {
 		return tm, nil
 	}
 
-	tm, fm := dateTimeParser.Parse(cast.StringToByteArray(dt0))
+	tm, fm := dateTimeParser.Parse(cast.StringToByteArray(strings.Trim(dt0, " ")))
 	if fm != nil {
 		return tm, nil
 	}
-- 
2.43.0


From 9968a9c26dc45a2ed076a031031f4d7f24833f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:22 +0000
Subject: [PATCH 35/79] fix: refuse the relative time which is out of range

---
 pkg/ql/datetime.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index fd2bf12..6c60aed 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -19,6 +19,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/cast"
 	"github.com/solarisdb/solaris/golibs/datetime"
 	"github.com/solarisdb/solaris/golibs/errors"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -191,6 +192,9 @@ func parseRalativeDateTime(dt string) (time.Time, error) {
 	}
 
 	val = val * mult
+	if !(math.Abs(val) < math.MaxInt64) { // NaN as well
+		return time.Time{}, fmt.Errorf("the value %s is out of range: %w", dt, errors.ErrInvalid)
+	}
 	return time.Now().Add(-time.Duration(val)), nil
 }
 
-- 
2.43.0


From 7b3d39104f336f4cf90e3fa42d23c6fcf466835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:59 +0000
Subject: [PATCH 36/79] fix: quote the string constants of the conditions
 translated to SQL, support the empty lists

---
 pkg/ql/dialect.go    | 24 +++++++++++++++---------
 pkg/ql/translator.go |  4 +++-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pkg/ql/dialect.go b/pkg/ql/dialect.go
index 6627c93..02f6583 100644
--- a/pkg/ql/dialect.go
+++ b/pkg/ql/dialect.go
@@ -128,16 +128,18 @@ var (
 		StringParamID: {
 			Flags: PfRValue | PfComparable, // strings are rvalues only
 			TranslateF: func(tr Translator[*solaris.Log], sb *strings.Builder, p Param) error {
-				// use single quotes for string constants
-				sb.WriteString("'")
-				sb.WriteString(*p.Const.String)
-				sb.WriteString("'")
+				writeSqlString(sb, *p.Const.String)
 				return nil
 			},
 		},
 		ArrayParamID: {
 			Flags: PfRValue,
 			TranslateF: func(tr Translator[*solaris.Log], sb *strings.Builder, p Param) error {
+				if len(p.Array) == 0 {
+					// the empty list () is not allowed in SQL
+					sb.WriteString("(SELECT NULL WHERE FALSE)")
+					return nil
+				}
 				sb.WriteString("(")
 				for i, c := range p.Array {
 					if i > 0 {
@@ -146,9 +148,7 @@ var (
 					if c.String == nil {
 						return fmt.Errorf("array must contain only strings: %w", errors.ErrInvalid)
 					}
-					sb.WriteString("'")
-					sb.WriteString(*c.String)
-					sb.WriteString("'")
+					writeSqlString(sb, *c.String)
 				}
 				sb.WriteString(")")
 				return nil
@@ -174,8 +174,7 @@ var (
 					return fmt.Errorf("tag() function expects the tag name (string) as the parameter: %w", errors.ErrInvalid)
 				}
 				sb.WriteString("tags ->> ")
-				_ = tr.Param2Sql(sb, p.Function.Params[0])
-				return nil
+				return tr.Param2Sql(sb, p.Function.Params[0])
 			},
 		},
 	}
@@ -200,6 +199,13 @@ var (
 	}
 )
 
+// writeSqlString writes the string constant s in single quotes
+func writeSqlString(sb *strings.Builder, s string) {
+	sb.WriteString("'")
+	sb.WriteString(strings.ReplaceAll(s, "'", "''"))
+	sb.WriteString("'")
+}
+
 // check returns whether the parameter is ok or not. The function is used by the evaluator
 func (pd ParamDialect[T]) check(p *Param) error {
 	if pd.CheckF != nil {
diff --git a/pkg/ql/translator.go b/pkg/ql/translator.go
index e90aeb6..1fc6bbe 100644
--- a/pkg/ql/translator.go
+++ b/pkg/ql/translator.go
@@ -163,7 +163,9 @@ func (tr Translator[T]) Param2Sql(sb *strings.Builder, p *Param) error {
 		return nil
 	}
 	sb.WriteString("(")
-	_ = tr.Params2Sql(sb, p.Function.Params)
+	if err := tr.Params2Sql(sb, p.Function.Params); err != nil {
+		return err
+	}
 	sb.WriteString(")")
 	return nil
 }
-- 
2.43.0


From 4fec0a04a4aae09843d46cb9c983d9d6f6dc901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:59 +0000
Subject: [PATCH 37/79] fix: OR in a logs condition must not select or delete
 the logs which are marked as deleted

---
 pkg/storage/postgres/postgres.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 57c9592..4e14019 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -109,8 +109,8 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 		}
 		sb.WriteString(")")
 	} else if len(qr.Condition) > 0 {
-		if err := qlToPqTranslator.Translate(&sb, qr.Condition); err != nil {
-			return nil, fmt.Errorf("condition=%q translate error=%v: %w", qr.Condition, err, errors.ErrInvalid)
+		if err := translateCondition(&sb, qr.Condition); err != nil {
+			return nil, err
 		}
 	}
 
@@ -180,8 +180,8 @@ func (s *Storage) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest)
 		}
 		sb.WriteString(")")
 	} else if len(req.Condition) > 0 {
-		if err := qlToPqTranslator.Translate(&sb, req.Condition); err != nil {
-			return nil, fmt.Errorf("condition=%q translate error=%v: %w", req.Condition, err, errors.ErrInvalid)
+		if err := translateCondition(&sb, req.Condition); err != nil {
+			return nil, err
 		}
 	}
 	if sb.Len() == 0 {
@@ -286,6 +286,18 @@ func (s *Storage) UpsertChunkInfos(ctx context.Context, logID string, cis []logf
 
 // ===================================== helpers =====================================
 
+// translateCondition writes the SQL condition to sb. The condition is put in the parentheses, so it may be combined with other ones
+func translateCondition(sb *strings.Builder, cond string) error {
+	var csb strings.Builder
+	if err := qlToPqTranslator.Translate(&csb, cond); err != nil {
+		return fmt.Errorf("condition=%q translate error=%v: %w", cond, err, errors.ErrInvalid)
+	}
+	if csb.Len() > 0 {
+		sb.WriteString(" (" + csb.String() + ")")
+	}
+	return nil
+}
+
 func scan[T any](rows *sqlx.Rows) (T, error) {
 	var res T
 	if rows.Next() {
-- 
2.43.0


From 1bbff41d0691ab9ecafdc538c91a0f0f73e142d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:59 +0000
Subject: [PATCH 38/79] fix: respect the page and the default limit of the logs
 query

---
 pkg/storage/postgres/postgres.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 4e14019..5486602 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -137,7 +137,14 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 		return nil, MapError(err)
 	}
 
-	limit := int(qr.Limit)
+	limit := min(int(qr.Limit), 1000)
+	if qr.Limit <= 0 {
+		limit = 50
+	}
+	if len(qr.Page) > 0 {
+		args = append(args, qr.Page)
+		where += fmt.Sprintf(" and id >= $%d", len(args))
+	}
 	args = append(args, limit+1)
 
 	qryRows, err := s.db.QueryxContext(ctx, fmt.Sprintf("select * from log %s order by id limit $%d", where, len(args)), args...)
-- 
2.43.0


From 01ebe169cb96af05b96215ace9aceb035138bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:05 +0000
Subject: [PATCH 39/79] fix: report the connection failures instead of
 returning a part of the result

---
 pkg/storage/postgres/postgres.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 5486602..a8d807d 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -84,6 +84,9 @@ func (s *Storage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log
 		_ = rows.Close()
 	}()
 	if !rows.Next() {
+		if err = rows.Err(); err != nil {
+			return nil, MapError(err)
+		}
 		return nil, errors.ErrNotExist
 	}
 	var updatedLog Log
@@ -308,9 +311,11 @@ func translateCondition(sb *strings.Builder, cond string) error {
 func scan[T any](rows *sqlx.Rows) (T, error) {
 	var res T
 	if rows.Next() {
-		_ = rows.Scan(&res)
+		if err := rows.Scan(&res); err != nil {
+			return res, err
+		}
 	}
-	return res, nil
+	return res, rows.Err()
 }
 
 func scanRows[T any](rows *sqlx.Rows) ([]T, error) {
@@ -322,6 +327,9 @@ func scanRows[T any](rows *sqlx.Rows) ([]T, error) {
 		}
 		res = append(res, t)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, MapError(err)
+	}
 	return res, nil
 }
 
@@ -334,5 +342,8 @@ func structScanRows[T any](rows *sqlx.Rows) ([]T, error) {
 		}
 		res = append(res, t)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, MapError(err)
+	}
 	return res, nil
 }
-- 
2.43.0


From 5ee30a37fca3c8ab6f99bc7fdd500eede238a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:05 +0000
Subject: [PATCH 40/79] fix: tags with control characters must be encoded to a
 valid JSON

---
 pkg/storage/postgres/model.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/storage/postgres/model.go b/pkg/storage/postgres/model.go
index 8703329..ca138b4 100644
--- a/pkg/storage/postgres/model.go
+++ b/pkg/storage/postgres/model.go
@@ -18,7 +18,6 @@ import (
 	"database/sql/driver"
 	"encoding/json"
 	"fmt"
-	"strings"
 	"time"
 )
 
@@ -56,14 +55,9 @@ func (t *Tags) Scan(value any) error {
 }
 
 func (t Tags) JSON() string {
-	var sb strings.Builder
-	sb.WriteString("{")
-	for k, v := range t {
-		if sb.Len() > 1 {
-			sb.WriteByte(',')
-		}
-		sb.WriteString(fmt.Sprintf("%q:%q", k, v))
+	if len(t) == 0 {
+		return "{}"
 	}
-	sb.WriteString("}")
-	return sb.String()
+	buf, _ := json.Marshal(t)
+	return string(buf)
 }
-- 
2.43.0


From 10d649ebb168d484cedd76906491011e45deef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:52 +0000
Subject: [PATCH 41/79] fix: don't trust the cached values after a change which
 failed, its outcome is unknown

---
 pkg/storage/cache/cache.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pkg/storage/cache/cache.go b/pkg/storage/cache/cache.go
index c4f3992..a157cf9 100644
--- a/pkg/storage/cache/cache.go
+++ b/pkg/storage/cache/cache.go
@@ -89,12 +89,9 @@ func (s *CachedStorage) GetLogByID(ctx context.Context, id string) (*solaris.Log
 
 // UpdateLog implements storage.Logs
 func (s *CachedStorage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
-	l, err := s.storage.UpdateLog(ctx, log)
-	if err != nil {
-		return nil, err
-	}
-	s.logsCache.Remove(log.ID)
-	return l, err
+	// the log could be changed even if an error is returned (the connection is lost etc.)
+	defer s.logsCache.Remove(log.ID)
+	return s.storage.UpdateLog(ctx, log)
 }
 
 // QueryLogs implements storage.Logs
@@ -106,6 +103,9 @@ func (s *CachedStorage) QueryLogs(ctx context.Context, qr storage.QueryLogsReque
 func (s *CachedStorage) DeleteLogs(ctx context.Context, request storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	dr, err := s.storage.DeleteLogs(ctx, request)
 	if err != nil {
+		// it is not known what is deleted, if any
+		s.logsCache.Clear()
+		s.chunksCache.Clear()
 		return nil, err
 	}
 	for _, id := range dr.DeletedIDs {
@@ -134,9 +134,7 @@ func (s *CachedStorage) GetChunks(ctx context.Context, logID string) ([]logfs.Ch
 
 // UpsertChunkInfos implements logfs.LogsMetaStorage
 func (s *CachedStorage) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) error {
-	if err := s.storage.UpsertChunkInfos(ctx, logID, cis); err != nil {
-		return err
-	}
-	s.chunksCache.Remove(logID)
-	return nil
+	// the chunks could be changed even if an error is returned (the connection is lost etc.)
+	defer s.chunksCache.Remove(logID)
+	return s.storage.UpsertChunkInfos(ctx, logID, cis)
 }
-- 
2.43.0


From 98a0e24013cb21f71d31d77d23b09136173911c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:46 +0000
Subject: [PATCH 42/79] fix: Wednesday is a day of the week, accept it in the
 dates

---
 golibs/datetime/date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/datetime/date.go b/golibs/datetime/date.go
index 63010a6..b57fba6 100644
--- a/golibs/datetime/date.go
+++ b/golibs/datetime/date.go
@@ -150,7 +150,7 @@ var (
 		{"MMM", "Jan", "[A-Z][a-z]{2}"},
 		{"MM", "01", "[0-3]\\d"},
 		{"M", "1", "\\d{1,2}"},
-		{"DDDD", "Monday", "[A-Z][a-z]{5,7}"},
+		{"DDDD", "Monday", "[A-Z][a-z]{5,8}"},
 		{"DDD", "Mon", "[A-Z][a-z]{2}"},
 		{"DD", "02", "\\d{2}"},
 		{"_D", "_2", "(?: \\d{1}|\\d{2})"},
-- 
2.43.0


From c1e1901b331390edb7771b83f6b83cee9d00e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:56 +0000
Subject: [PATCH 43/79] fix: a long string in a condition must not hang the
 parser

---
 pkg/ql/parser.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 0ded9a9..d92ec9d 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -19,6 +19,7 @@ import (
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
 	"github.com/solarisdb/solaris/golibs/errors"
+	"strconv"
 	"strings"
 )
 
@@ -81,7 +82,7 @@ var (
 
 	parser = participle.MustBuild[Expression](
 		participle.Lexer(sqlLexer),
-		participle.Unquote("String"),
+		participle.Map(unquote, "String"),
 		participle.CaseInsensitive("Keyword"),
 	)
 )
@@ -170,6 +171,23 @@ func Parse(expr string) (*Expression, error) {
 	return e, nil
 }
 
+// unquote removes the quotes and replaces the escape sequences of the string token. It does the same as
+// participle.Unquote(), but it takes linear time, so a long string cannot hang the parser
+func unquote(t lexer.Token) (lexer.Token, error) {
+	var sb strings.Builder
+	quote := t.Value[0]
+	for s := t.Value[1 : len(t.Value)-1]; s != ""; {
+		r, _, tail, err := strconv.UnquoteChar(s, quote)
+		if err != nil {
+			return t, participle.Errorf(t.Pos, "invalid quoted string %q: %s", t.Value, err.Error())
+		}
+		s = tail
+		sb.WriteRune(r)
+	}
+	t.Value = sb.String()
+	return t, nil
+}
+
 // nesting returns how deep the parentheses in the expr are nested
 func nesting(expr string) int {
 	res, depth := 0, 0
-- 
2.43.0


From 8fa199a51e22df373d0f5a28c6be4a303cd22b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 44/79] fix: in-memory kvs must not treat the expired records
 as existing ones, waiters must see the expiration

---
 golibs/kvs/inmem/inmem.go | 94 ++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 40 deletions(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 8ef80ba..31b8b03 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -57,7 +57,7 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 	if ctx.Err() != nil {
 		return "", ctx.Err()
 	}
-	if r, ok := s.recs[record.Key]; ok {
+	if r, ok := s.get(record.Key); ok {
 		return r.Version, errors.ErrExist
 	}
 	record.Version = ulidutils.NewID()
@@ -68,17 +68,10 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 func (s *service) Get(ctx context.Context, key string) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[key]
+	r, ok := s.get(key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, key)
-			s.notifyWaiters(key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	return r, nil
 }
 
@@ -108,17 +101,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 
 	res := make([]*kvs.Record, len(keys))
 	for idx, key := range keys {
-		r, ok := s.recs[key]
+		r, ok := s.get(key)
 		if !ok {
 			continue
 		}
-		if r.ExpiresAt != nil {
-			if r.ExpiresAt.Before(time.Now()) {
-				delete(s.recs, key)
-				s.notifyWaiters(key)
-				continue
-			}
-		}
 		res[idx] = &r
 	}
 	return res, nil
@@ -127,17 +113,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[record.Key]
+	r, ok := s.get(record.Key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, record.Key)
-			s.notifyWaiters(record.Key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	if r.Version != record.Version {
 		return kvs.Record{}, errors.ErrConflict
 	}
@@ -151,7 +130,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
-	if _, ok := s.recs[key]; !ok {
+	if _, ok := s.get(key); !ok {
 		return errors.ErrNotExist
 	}
 	delete(s.recs, key)
@@ -162,7 +141,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) error {
 	for {
 		s.lock.Lock()
-		r, ok := s.recs[key]
+		r, ok := s.get(key)
 		if !ok {
 			s.lock.Unlock()
 			return errors.ErrNotExist
@@ -179,23 +158,44 @@ func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) err
 		ws.waiters++
 		s.lock.Unlock()
 
+		var tmr *time.Timer
+		var expired <-chan time.Time
+		if r.ExpiresAt != nil {
+			tmr = time.NewTimer(time.Until(*r.ExpiresAt))
+			expired = tmr.C
+		}
+
+		var err error
 		select {
 		case <-ctx.Done():
-			s.lock.Lock()
-			defer s.lock.Unlock()
-			ws1, ok := s.verChange[key]
-			if !ok || ws.done != ws1.done {
-				return ctx.Err()
-			}
-			ws.waiters--
-			if ws.waiters == 0 {
-				close(ws.done)
-				delete(s.verChange, key)
-			}
-			return ctx.Err()
+			s.leave(key, ws)
+			err = ctx.Err()
+		case <-expired:
+			s.leave(key, ws)
 		case <-ws.done:
 			// need to check the version, go around
 		}
+		if tmr != nil {
+			tmr.Stop()
+		}
+		if err != nil {
+			return err
+		}
+	}
+}
+
+// leave removes one waiter from the ws
+func (s *service) leave(key string, ws *waiter) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	ws1, ok := s.verChange[key]
+	if !ok || ws.done != ws1.done {
+		return
+	}
+	ws.waiters--
+	if ws.waiters == 0 {
+		close(ws.done)
+		delete(s.verChange, key)
 	}
 }
 
@@ -209,13 +209,27 @@ func (s *service) ListKeys(ctx context.Context, pattern string) (iterable.Iterat
 	}
 	res := []string{}
 	for k := range s.recs {
-		if g.Match(k) {
+		if !g.Match(k) {
+			continue
+		}
+		if _, ok := s.get(k); ok {
 			res = append(res, k)
 		}
 	}
 	return &keysIterator{res: res}, nil
 }
 
+// get returns the record by its key, if it exists and it is not expired. The s.lock must be held
+func (s *service) get(key string) (kvs.Record, bool) {
+	r, ok := s.recs[key]
+	if ok && r.ExpiresAt != nil && r.ExpiresAt.Before(time.Now()) {
+		delete(s.recs, key)
+		s.notifyWaiters(key)
+		return kvs.Record{}, false
+	}
+	return r, ok
+}
+
 func (s *service) notifyWaiters(key string) {
 	ws, ok := s.verChange[key]
 	if !ok {
-- 
2.43.0


From 8926b98f31d075927ad34fc6afa659783d8e78f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 45/79] fix: in-memory kvs must not share the values and the
 expiration times with its callers

---
 golibs/kvs/inmem/inmem.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 31b8b03..44401b0 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -61,7 +61,7 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 		return r.Version, errors.ErrExist
 	}
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	return record.Version, nil
 }
 
@@ -72,14 +72,14 @@ func (s *service) Get(ctx context.Context, key string) (kvs.Record, error) {
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	return r, nil
+	return r.Copy(), nil
 }
 
 func (s *service) Put(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	s.notifyWaiters(record.Key)
 	return record, nil
 }
@@ -89,7 +89,7 @@ func (s *service) PutMany(ctx context.Context, records []kvs.Record) error {
 	defer s.lock.Unlock()
 	for _, r := range records {
 		r.Version = ulidutils.NewID()
-		s.recs[r.Key] = r
+		s.recs[r.Key] = r.Copy()
 		s.notifyWaiters(r.Key)
 	}
 	return nil
@@ -105,6 +105,7 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 		if !ok {
 			continue
 		}
+		r = r.Copy()
 		res[idx] = &r
 	}
 	return res, nil
@@ -121,7 +122,7 @@ func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Reco
 		return kvs.Record{}, errors.ErrConflict
 	}
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	s.notifyWaiters(record.Key)
 	return record, nil
 }
-- 
2.43.0


From 06b9588fd6b6e1b98947a46fe0b7654f505b417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 46/79] fix: redis kvs must return the version of the existing
 record by Create

---
 golibs/kvs/redis/redis.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 76d8d34..e2cd029 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -47,14 +47,23 @@ func New(opts *redis.Options) kvs.Storage {
 func (c *client) Create(ctx context.Context, record kvs.Record) (string, error) {
 	record.Version = ulidutils.NewID()
 	buf := rec2db(&record)
-	ok, err := c.rdb.SetNX(ctx, rKey(record.Key), buf, expiration(record.ExpiresAt, time.Now())).Result()
-	if err != nil {
-		return "", checkErr(err)
-	}
-	if !ok {
-		return "", errors.ErrExist
+	for {
+		ok, err := c.rdb.SetNX(ctx, rKey(record.Key), buf, expiration(record.ExpiresAt, time.Now())).Result()
+		if err != nil {
+			return "", checkErr(err)
+		}
+		if ok {
+			return record.Version, nil
+		}
+		r, err := c.Get(ctx, record.Key)
+		if err == nil {
+			return r.Version, errors.ErrExist
+		}
+		if !errors.Is(err, errors.ErrNotExist) {
+			return "", err
+		}
+		// the record has just gone, try again
 	}
-	return record.Version, nil
 }
 
 func (c *client) Get(ctx context.Context, key string) (kvs.Record, error) {
-- 
2.43.0


From ecd8dee24f4a3f58b9c8dc4aa7ed5d6952ecb48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 47/79] fix: redis kvs PutMany must give new versions to the
 records

---
 golibs/kvs/redis/redis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index e2cd029..641539a 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -108,6 +108,7 @@ func (c *client) PutMany(ctx context.Context, records []kvs.Record) error {
 			mset = nil
 			break
 		}
+		r.Version = ulidutils.NewID()
 		mset = append(mset, rKey(r.Key))
 		mset = append(mset, cast.ByteArrayToString(rec2db(&r)))
 	}
-- 
2.43.0


From c653370948fe5cf7fda0dba84c52f6bfc3784347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 48/79] fix: redis kvs CasByVersion must not fail when the
 record is changed concurrently

---
 golibs/kvs/redis/redis.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 641539a..d4f45bb 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -127,13 +127,14 @@ func (c *client) PutMany(ctx context.Context, records []kvs.Record) error {
 
 func (c *client) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	key := rKey(record.Key)
-	err := c.rdb.Watch(ctx, func(tx *redis.Tx) error {
+	expected := record.Version
+	cas := func(tx *redis.Tx) error {
 		val, err := tx.Get(ctx, key).Result()
 		if err != nil {
 			return checkErr(err)
 		}
 		r := db2rec(cast.StringToByteArray(val))
-		if r.Version != record.Version {
+		if r.Version != expected {
 			return errors.ErrConflict
 		}
 		record.Version = ulidutils.NewID()
@@ -143,8 +144,14 @@ func (c *client) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Recor
 			return err2
 		})
 		return err
-	}, key)
-	return record, err
+	}
+	for {
+		err := c.rdb.Watch(ctx, cas, key)
+		if err != redis.TxFailedErr {
+			return record, err
+		}
+		// the record has just been changed by somebody else, let's see how
+	}
 }
 
 func (c *client) Delete(ctx context.Context, key string) error {
-- 
2.43.0


From 08e36121fe5477b63c79f371387b6ad52a365c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 49/79] fix: the release of a distributed lock must not remove
 the lock of another holder when the lease is lost

---
 golibs/kvs/distlock/kvlock.go | 45 ++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/golibs/kvs/distlock/kvlock.go b/golibs/kvs/distlock/kvlock.go
index ffb2b20..b81242a 100644
--- a/golibs/kvs/distlock/kvlock.go
+++ b/golibs/kvs/distlock/kvlock.go
@@ -24,6 +24,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/logging"
 	"github.com/solarisdb/solaris/golibs/sync"
 	"github.com/solarisdb/solaris/golibs/timeout"
+	"github.com/solarisdb/solaris/golibs/ulidutils"
 	"sync/atomic"
 	"time"
 )
@@ -45,6 +46,7 @@ type kvsLock struct {
 	dlp     *kvsLockProvider // immutable
 	key     string           // immutable
 	lockCh  chan bool        // immutable
+	owner   string           // identifies the current acquisition, may be accessed by the lock holder only
 	future  atomic.Value     // timeout.Future
 	lckCntr int32
 	waiters int32
@@ -106,12 +108,14 @@ func (l *kvsLock) TryLock(ctx context.Context) bool {
 	if err := l.tryLockInternal(); err != nil {
 		return false
 	}
+	owner := ulidutils.NewID()
 	if ver, err := l.dlp.Storage.Create(ctx, kvs.Record{
 		Key:       l.key,
-		Value:     cast.StringToByteArray(""),
+		Value:     []byte(owner),
 		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 	}); err == nil {
-		l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
+		l.owner = owner
+		l.future.Store(timeout.Call(func() { l.supportTimeout(ver, owner) }, l.dlp.leaseTTL/2))
 		return true
 	}
 	atomic.StoreInt32(&l.lckCntr, 0)
@@ -141,7 +145,7 @@ func (l *kvsLock) Unlock() {
 
 	future := l.future.Load().(timeout.Future)
 	future.Cancel()
-	err := l.dlp.Storage.Delete(context.Background(), l.key)
+	err := l.deleteRecord(l.owner)
 	if err != nil && !errors.Is(err, errors.ErrNotExist) {
 		// some serious situation with the storage corruption or non-availability
 		l.dlp.logger.Warnf("kvsLock.Unlock(): could not read the key %s, but will release the lock: %s", l.String(), err)
@@ -151,6 +155,29 @@ func (l *kvsLock) Unlock() {
 	l.lockCh <- true
 }
 
+// deleteRecord removes the lock record if it still belongs to the owner. If the lease was lost the record may
+// belong to another holder already, so it must not be touched.
+func (l *kvsLock) deleteRecord(owner string) error {
+	for {
+		r, err := l.dlp.Storage.Get(context.Background(), l.key)
+		if err != nil {
+			return err
+		}
+		if string(r.Value) != owner {
+			return errors.ErrNotExist
+		}
+		// extend the lease, so nobody can acquire the lock until the record is deleted
+		r.ExpiresAt = cast.Ptr(time.Now().Add(l.dlp.leaseTTL))
+		if _, err = l.dlp.Storage.CasByVersion(context.Background(), r); err == nil {
+			return l.dlp.Storage.Delete(context.Background(), l.key)
+		}
+		if !errors.Is(err, errors.ErrConflict) {
+			return err
+		}
+		// the record was either prolonged or acquired by another holder, check it again
+	}
+}
+
 // String implements fmt.Stringify
 func (l *kvsLock) String() string {
 	return fmt.Sprintf("{lckCntr: %d, key: %s, shutdown: %t, waiters: %d}",
@@ -167,14 +194,16 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 
 	err := ctx.Err()
 	var ver string
+	owner := ulidutils.NewID()
 	for err == nil {
 		ver, err = l.dlp.Storage.Create(ctx, kvs.Record{
 			Key:       l.key,
-			Value:     cast.StringToByteArray(""),
+			Value:     []byte(owner),
 			ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 		})
 		if err == nil {
-			l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
+			l.owner = owner
+			l.future.Store(timeout.Call(func() { l.supportTimeout(ver, owner) }, l.dlp.leaseTTL/2))
 			return nil
 		}
 
@@ -193,11 +222,11 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 // the function is tricky, cause it uses CAS operation to update the record version and if the version
 // is updated, it recharges the timeout. This is where the new raise can happen and the new future may
 // overwrite the future flag stored in the atomic.
-func (l *kvsLock) supportTimeout(ver string) {
+func (l *kvsLock) supportTimeout(ver, owner string) {
 	future := l.future.Load().(timeout.Future)
 	r, err := l.dlp.Storage.CasByVersion(context.Background(), kvs.Record{
 		Key:       l.key,
-		Value:     cast.StringToByteArray(""),
+		Value:     []byte(owner),
 		Version:   ver,
 		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 	})
@@ -205,7 +234,7 @@ func (l *kvsLock) supportTimeout(ver string) {
 		l.dlp.logger.Debugf("supportTimeout raise detected, just do nothing for the key=%s, err=%s", l.key, err)
 		return
 	}
-	newFuture := timeout.Call(func() { l.supportTimeout(r.Version) }, l.dlp.leaseTTL/2)
+	newFuture := timeout.Call(func() { l.supportTimeout(r.Version, owner) }, l.dlp.leaseTTL/2)
 	if !l.future.CompareAndSwap(future, newFuture) {
 		// somebody already started the new timer, so drop this and forget about the incident
 		l.dlp.logger.Debugf("supportTimeout raise 2 detected, just cancelling the call timeout")
-- 
2.43.0


From e74c17e3af69e74ff3b18fbd9f80cf5becc5b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 50/79] fix: the iterable map must update its head when a
 deleted element is released by an iterator

---
 golibs/container/iterable/map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/golibs/container/iterable/map.go b/golibs/container/iterable/map.go
index 405716c..311075b 100644
--- a/golibs/container/iterable/map.go
+++ b/golibs/container/iterable/map.go
@@ -132,7 +132,10 @@ func (im *Map[K, V]) getValue(p *rlItem[K, V]) *rlItem[K, V] {
 func (im *Map[K, V]) release(p *rlItem[K, V]) {
 	p.refCnt--
 	if p.state == rlDeleted {
-		p.delete()
+		head := p.delete()
+		if head != nil {
+			im.head = head
+		}
 		if p.refCnt == 0 {
 			im.pool.Put(p)
 		}
-- 
2.43.0


From bcdeb8117aaa18d2aca0503c9783f6555ce6e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 51/79] fix: refuse the unacceptable block sizes by the blocks
 storage

---
 golibs/container/bytes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/container/bytes/blocks.go b/golibs/container/bytes/blocks.go
index 613e1e3..0b21848 100644
--- a/golibs/container/bytes/blocks.go
+++ b/golibs/container/bytes/blocks.go
@@ -87,7 +87,7 @@ func GetBlocksInSegment(blkSize int) int {
 func NewBlocks(bs int, bts Buffer, fit bool) (*Blocks, error) {
 	// get absolute number of blocks in a segment
 	blksInSegm := GetBlocksInSegment(bs)
-	if bs < 0 {
+	if blksInSegm < 0 {
 		return nil, fmt.Errorf("incorrect block size=%d, should multiple on naturanl integer to get %d: %w ", bs, os.Getpagesize(), errors.ErrInvalid)
 	}
 
-- 
2.43.0


From a77b420d96c1573b742e23c14ba826b9ac1eacef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 52/79] fix: the minute time constant is the beginning of the
 minute, drop the fraction of the second

---
 pkg/ql/datetime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index 6c60aed..e9cc37c 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -204,7 +204,7 @@ func parseConstantsDateTime(dt string) (time.Time, error) {
 	switch dt {
 	case "minute":
 		_, _, s := now.Clock()
-		now = now.Add(-time.Duration(s) * time.Second)
+		now = now.Add(-time.Duration(s)*time.Second - time.Duration(now.Nanosecond()))
 	case "hour":
 		_, m, s := now.Clock()
 		now = now.Add(
-- 
2.43.0


From d75ad7b97cd42ae3cc95664711ae8fdc3af6f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 53/79] fix: the hash must not share the buffer with its caller

---
 golibs/strutil/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/strutil/hash.go b/golibs/strutil/hash.go
index f0685aa..025e01f 100644
--- a/golibs/strutil/hash.go
+++ b/golibs/strutil/hash.go
@@ -69,7 +69,7 @@ func createHash(buf []byte, create bool) (hash, error) {
 	}
 	res := buf
 	if create {
-		res := make([]byte, len(buf))
+		res = make([]byte, len(buf))
 		copy(res, buf)
 	}
 	return hash{res, base64.URLEncoding.EncodeToString(res)}, nil
-- 
2.43.0


From 2c3c79680a228fab679d8a9de191564ddfcbc904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 54/79] fix: refuse the values which don't fit when
 unmarshalling

---
 golibs/xbinary/xbinary.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/golibs/xbinary/xbinary.go b/golibs/xbinary/xbinary.go
index 80fb62c..f8c5874 100644
--- a/golibs/xbinary/xbinary.go
+++ b/golibs/xbinary/xbinary.go
@@ -185,6 +185,9 @@ func UnmarshalUint(buf []byte) (int, uint, error) {
 		}
 
 		b := buf[idx]
+		if shft > 63 || (shft == 63 && b > 1) {
+			return 0, 0, fmt.Errorf("the value is too big: UnmarshalUInt reads %d bits value maximum", 64)
+		}
 		res = res | (uint(b&127) << shft)
 		if b <= 127 {
 			return idx + 1, res, nil
@@ -266,11 +269,11 @@ func UnmarshalBytes(buf []byte, newBuf bool) (int, []byte, error) {
 		return 0, nil, err
 	}
 
-	ln := int(uln)
-	if len(buf) < ln+idx {
-		return 0, nil, noBufErr("UnmarshalBytes-size-body", len(buf)-idx, ln)
+	if uint(len(buf)-idx) < uln {
+		return 0, nil, fmt.Errorf("not enough space in the buf: UnmarshalBytes-size-body requires %d bytes, but actual buf size is %d", uln, len(buf)-idx)
 	}
 
+	ln := int(uln)
 	res := buf[idx : idx+ln]
 	if newBuf {
 		res = container.SliceCopy(res)
-- 
2.43.0


From ecb76670e12c4847cff5dbbe2f143e7046b1390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 55/79] fix: a function which runs long must not block the
 other scheduled calls

---
 golibs/timeout/timeout.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/golibs/timeout/timeout.go b/golibs/timeout/timeout.go
index 354cf4c..447d57b 100644
--- a/golibs/timeout/timeout.go
+++ b/golibs/timeout/timeout.go
@@ -32,6 +32,8 @@ type (
 		wakeCh      chan bool
 		futures     *futures
 		watchers    int
+		sleeping    int
+		guardTmr    *time.Timer
 		idleTimeout time.Duration
 		maxWorkers  int
 	}
@@ -105,9 +107,38 @@ func (cc *callControl) add(fu *future) {
 		go cc.watcher()
 	} else {
 		cc.notifyWatcher()
+		cc.guard()
 	}
 }
 
+// guard must be called under the lock. It takes care of the next future when all the watchers
+// are running the functions, so that the functions which take long will not block the others
+func (cc *callControl) guard() {
+	if cc.sleeping > 0 || cc.watchers >= cc.maxWorkers || cc.futures.Len() == 0 {
+		return
+	}
+	tmt := time.Until((*cc.futures)[0].fireT) + time.Millisecond
+	if cc.guardTmr == nil {
+		cc.guardTmr = time.AfterFunc(tmt, cc.onGuard)
+	} else {
+		cc.guardTmr.Reset(tmt)
+	}
+}
+
+func (cc *callControl) onGuard() {
+	cc.lock.Lock()
+	defer cc.lock.Unlock()
+	if cc.sleeping > 0 || cc.watchers >= cc.maxWorkers || cc.futures.Len() == 0 {
+		return
+	}
+	if time.Now().After((*cc.futures)[0].fireT) {
+		cc.watchers++
+		go cc.watcher()
+		return
+	}
+	cc.guard()
+}
+
 func (cc *callControl) futureAsString(fu *future) string {
 	cc.lock.Lock()
 	defer cc.lock.Unlock()
@@ -175,6 +206,7 @@ func (cc *callControl) watcher() {
 						go cc.watcher()
 					}
 				}
+				cc.guard()
 				cc.lock.Unlock()
 				continue
 			}
@@ -184,6 +216,7 @@ func (cc *callControl) watcher() {
 				// if the worker already slept once with no job, let it go
 				if misCount > 1 {
 					cc.watchers--
+					cc.guard()
 					cc.lock.Unlock()
 					return
 				}
@@ -192,6 +225,7 @@ func (cc *callControl) watcher() {
 				}
 			}
 		}
+		cc.sleeping++
 		cc.lock.Unlock()
 
 		tmr := time.NewTimer(tmt)
@@ -203,6 +237,9 @@ func (cc *callControl) watcher() {
 			}
 			misCount = 0
 		}
+		cc.lock.Lock()
+		cc.sleeping--
+		cc.lock.Unlock()
 	}
 }
 
-- 
2.43.0


From 169a825a29550b17c8799edbb15806422c59477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 56/79] fix: the in-memory simple storage is used concurrently,
 it must not crash then

---
 golibs/sss/inmem/storage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index c9e9212..723dfeb 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -23,11 +23,13 @@ import (
 	"io"
 	"io/ioutil"
 	"strings"
+	"sync"
 )
 
 // Storage provides kvs.Storage functionality in local process memory. This instance can be
 // used in a single-node configuration or in a test-purposes.
 type Storage struct {
+	lock    sync.RWMutex
 	storage map[string][]byte
 }
 
@@ -47,6 +49,8 @@ func (st *Storage) Get(_ context.Context, key string) (io.ReadCloser, error) {
 		return nil, fmt.Errorf("Storage.Get(): invalid key=%s", key)
 	}
 
+	st.lock.RLock()
+	defer st.lock.RUnlock()
 	if buf, ok := st.storage[key]; ok {
 		return ioutil.NopCloser(bytes.NewReader(buf)), nil
 	}
@@ -66,6 +70,8 @@ func (st *Storage) Put(_ context.Context, key string, r io.Reader) error {
 	}
 	b1 := make([]byte, len(buf))
 	copy(b1, buf)
+	st.lock.Lock()
+	defer st.lock.Unlock()
 	st.storage[key] = b1
 	return nil
 }
@@ -84,6 +90,8 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 
 	res := make([]string, 0, 10)
 	added := make(map[string]bool)
+	st.lock.RLock()
+	defer st.lock.RUnlock()
 	for k := range st.storage {
 		if strings.HasPrefix(k, path) {
 			idx := strings.Index(k[len(path):], "/")
-- 
2.43.0


From 2b9cb0840a2cab02e6899503e000d54ef251d42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 57/79] fix: the in-memory simple storage follows the
 interface: no error when a missing key is deleted, wrong keys are invalid

---
 golibs/sss/inmem/storage.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index 723dfeb..3eeec4e 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -46,7 +46,7 @@ func NewStorage() *Storage {
 // ErrNotExist should be returned
 func (st *Storage) Get(_ context.Context, key string) (io.ReadCloser, error) {
 	if !sss.IsKeyValid(key) {
-		return nil, fmt.Errorf("Storage.Get(): invalid key=%s", key)
+		return nil, fmt.Errorf("Storage.Get(): invalid key=%s: %w", key, errors.ErrInvalid)
 	}
 
 	st.lock.RLock()
@@ -61,7 +61,7 @@ func (st *Storage) Get(_ context.Context, key string) (io.ReadCloser, error) {
 // Put allows to store value represented by reader r by the key
 func (st *Storage) Put(_ context.Context, key string, r io.Reader) error {
 	if !sss.IsKeyValid(key) {
-		return fmt.Errorf("Storage.Put(): invalid key=%s", key)
+		return fmt.Errorf("Storage.Put(): invalid key=%s: %w", key, errors.ErrInvalid)
 	}
 
 	buf, err := io.ReadAll(r)
@@ -85,7 +85,7 @@ func (st *Storage) Put(_ context.Context, key string, r io.Reader) error {
 // List("/def/") -> "/def/abc", "/def/aa1"
 func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 	if !sss.IsPathValid(path) {
-		return nil, fmt.Errorf("Storage.List(): invalid path=%s", path)
+		return nil, fmt.Errorf("Storage.List(): invalid path=%s: %w", path, errors.ErrInvalid)
 	}
 
 	res := make([]string, 0, 10)
@@ -111,15 +111,14 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 }
 
 // Delete allows to delete a value by key. If the key doesn't exist, the operation
-// will return no errors.ErrNotExist
+// will return no error
 func (st *Storage) Delete(_ context.Context, key string) error {
 	if !sss.IsKeyValid(key) {
-		return fmt.Errorf("Storage.Delete(): invalid key=%s", key)
+		return fmt.Errorf("Storage.Delete(): invalid key=%s: %w", key, errors.ErrInvalid)
 	}
 
-	if _, ok := st.storage[key]; !ok {
-		return errors.ErrNotExist
-	}
+	st.lock.Lock()
+	defer st.lock.Unlock()
 	delete(st.storage, key)
 	return nil
 }
-- 
2.43.0


From 19ad4deb19551c8f2469b724897dac3c7103438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 58/79] fix: don't lose a signal which comes before the signals
 context starts listening

---
 golibs/context/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/context/signal.go b/golibs/context/signal.go
index 2514c7a..048bb68 100644
--- a/golibs/context/signal.go
+++ b/golibs/context/signal.go
@@ -22,7 +22,7 @@ import (
 // NewSignalsContext returns a context.Context that will be closed by one of the provided syscall.Signal(s)
 func NewSignalsContext(signals ...os.Signal) context.Context {
 	ctx, cancel := context.WithCancel(context.Background())
-	quit := make(chan os.Signal)
+	quit := make(chan os.Signal, 1)
 	signal.Notify(quit, signals...)
 	go func() {
 		<-quit
-- 
2.43.0


From fa76fc2dd8506542149c87f82adb4a3269218a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 59/79] fix: keep reporting the removal of a missing key by the
 in-memory simple storage

---
 golibs/sss/inmem/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index 3eeec4e..0115daf 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -111,7 +111,7 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 }
 
 // Delete allows to delete a value by key. If the key doesn't exist, the operation
-// will return no error
+// will return no errors.ErrNotExist
 func (st *Storage) Delete(_ context.Context, key string) error {
 	if !sss.IsKeyValid(key) {
 		return fmt.Errorf("Storage.Delete(): invalid key=%s: %w", key, errors.ErrInvalid)
@@ -119,6 +119,9 @@ func (st *Storage) Delete(_ context.Context, key string) error {
 
 	st.lock.Lock()
 	defer st.lock.Unlock()
+	if _, ok := st.storage[key]; !ok {
+		return errors.ErrNotExist
+	}
 	delete(st.storage, key)
 	return nil
 }
-- 
2.43.0


From 251c193dbd53422d5514b12b686becb00b372ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 60/79] fix: connection parameters with spaces, quotes or empty
 ones must get to the database as they are

---
 pkg/db/config.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/db/config.go b/pkg/db/config.go
index 468d2a3..4d41db3 100644
--- a/pkg/db/config.go
+++ b/pkg/db/config.go
@@ -1,6 +1,9 @@
 package db
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 // DBConn represents database connection parameters
 type DBConn struct {
@@ -29,7 +32,12 @@ type DBConn struct {
 // SourceName returns the DSN for the connection
 func (d *DBConn) SourceName() string {
 	return fmt.Sprintf("host=%s port=%s user=%s password=%s dbname=%s sslmode=%s",
-		d.Host, d.Port, d.Username, d.Password, d.DBName, d.SSLMode)
+		quote(d.Host), quote(d.Port), quote(d.Username), quote(d.Password), quote(d.DBName), quote(d.SSLMode))
+}
+
+// quote allows to have a value with any characters (or empty one) in the DSN
+func quote(v string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(v) + "'"
 }
 
 // URL returns the URL for the connection
-- 
2.43.0


From 6c21271c7de4e63ef1a09eac8a41dffe04944187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 61/79] fix: the configuration enricher must not lose or choke
 on the values: not exported fields, zero values by pointers, control
 characters, .JSON files

---
 golibs/config/enricher.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index 1f2360a..f1d8dfe 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -19,7 +19,6 @@ import (
 	"github.com/solarisdb/solaris/golibs/logging"
 	"os"
 	"reflect"
-	"strconv"
 	"strings"
 
 	"github.com/ghodss/yaml"
@@ -137,7 +136,7 @@ func (e *enricher[T]) LoadFromFile(fileName string) error {
 	switch {
 	case strings.HasSuffix(fn, ".yaml"):
 		return e.LoadFromYAMLFile(fileName)
-	case strings.HasSuffix(fileName, ".json"):
+	case strings.HasSuffix(fn, ".json"):
 		return e.LoadFromJSONFile(fileName)
 	default:
 		return fmt.Errorf("cannot recognize file format %s, expecting .json or .yaml: %w", fileName, errors.ErrInvalid)
@@ -253,6 +252,11 @@ func (e *enricher[T]) applyValues(other, target reflect.Value) error {
 		if target.IsNil() {
 			target.Set(reflect.New(target.Type().Elem()))
 		}
+		if other.Type().Elem().Kind() != reflect.Struct {
+			// the value is provided, even if it is zero
+			target.Elem().Set(other.Elem())
+			return nil
+		}
 		return e.applyValues(other.Elem(), target.Elem())
 	}
 	if other.Type().Kind() != reflect.Struct {
@@ -262,6 +266,10 @@ func (e *enricher[T]) applyValues(other, target reflect.Value) error {
 	for fi := 0; fi < other.NumField(); fi++ {
 		fo := other.Field(fi)
 		ft := target.Field(fi)
+		if !ft.CanSet() {
+			// not exported
+			continue
+		}
 		err := e.applyValues(fo, ft)
 		if err != nil {
 			return err
@@ -272,8 +280,8 @@ func (e *enricher[T]) applyValues(other, target reflect.Value) error {
 
 // assignStruct assigns a field addressed by the path with a seaprator sep to the value v,
 // which is a json encoded string. s must be a pointer to a structure. path contains the
-// name of fields or aliases (json:"name,..." annotation) separated by sep. If a field is
-// not exported or cannot be changed the function will panicing.
+// name of fields or aliases (json:"name,..." annotation) separated by sep. The fields, which
+// are not exported, cannot be addressed.
 //
 // Some objects in the path may not exist yet (pointers to values or structs) with nil
 // value. This case the function will create the all objects needed in the path, but only in
@@ -302,6 +310,10 @@ func (e *enricher[T]) assignStruct(s any, path, sep string, v string) bool {
 
 	for fi := 0; fi < val.Elem().NumField(); fi++ {
 		f := val.Elem().Field(fi)
+		if !f.CanSet() {
+			// not exported
+			continue
+		}
 		fTags := string(tp.Elem().Field(fi).Tag)
 		fName := strings.ToUpper(tp.Elem().Field(fi).Name)
 		alias := getAlias(fTags)
@@ -329,9 +341,6 @@ func (e *enricher[T]) assignStruct(s any, path, sep string, v string) bool {
 				}
 				return res
 			}
-			if !f.CanSet() {
-				panic(fmt.Sprintf("could not set value to the field %s, it is not settable", fName))
-			}
 			err := setFieldValueByString(f, v)
 			if err != nil {
 				panic(fmt.Sprintf("could not set value %s to the field %s: %s", v, fName, err))
@@ -362,7 +371,11 @@ func setFieldValueByString(field reflect.Value, s string) error {
 
 	obj := reflect.New(field.Type()).Interface()
 	if ifStringUnderlying(field.Type()) && !isQuoted(s) {
-		s = strconv.Quote(s)
+		buf, err := json.Marshal(s)
+		if err != nil {
+			return err
+		}
+		s = string(buf)
 	}
 
 	err := json.Unmarshal([]byte(s), obj)
-- 
2.43.0


From f659797cabfd1afd0feaeddbf95e1401d3069d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 62/79] fix: list and make directories by any spelling of the
 path: ./dir, a link to a directory, a bare file name; a file is not a
 directory

---
 golibs/files/files.go | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index bdab0f4..959a0d4 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -58,15 +58,7 @@ func GetRoot(path string) (string, string) {
 
 // EnsureDirExists checks whether the dir exists and creates the new one if it doesn't
 func EnsureDirExists(dir string) error {
-	d, err := os.Open(dir)
-	if err != nil {
-		if os.IsNotExist(err) {
-			err = os.MkdirAll(dir, 0740)
-		}
-	} else {
-		d.Close()
-	}
-
+	err := os.MkdirAll(dir, 0740)
 	if err != nil {
 		return fmt.Errorf("ensure dir %s returns error: %w", dir, err)
 	}
@@ -76,8 +68,7 @@ func EnsureDirExists(dir string) error {
 // EnsureFileExists checks whether the file exists and creates the new one if it doesn't. The function will create
 // directories which don't exist in the file path
 func EnsureFileExists(fn string) error {
-	dir, _ := filepath.Split(fn)
-	if err := EnsureDirExists(dir); err != nil {
+	if err := EnsureDirExists(filepath.Dir(fn)); err != nil {
 		return err
 	}
 	_, err := os.Stat(fn)
@@ -106,22 +97,13 @@ func ensureDirName(path string) string {
 
 // ListDir returns files and directories non-recursive (in the dir provided only)
 func ListDir(dir string) []os.FileInfo {
-	dir = ensureDirName(dir)
 	res := make([]os.FileInfo, 0, 10)
-	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
-		if err != nil {
-			return nil
+	des, _ := os.ReadDir(dir)
+	for _, de := range des {
+		if info, err := de.Info(); err == nil {
+			res = append(res, info)
 		}
-
-		fpath, _ := filepath.Split(path)
-		if ensureDirName(fpath) != dir {
-			return nil
-		}
-
-		res = append(res, info)
-		return nil
-	})
-
+	}
 	return res
 }
 
-- 
2.43.0


From 348812db6fae155d3e02fab6a89b640d79b94f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 63/79] fix: the hash of a folder must differ for the different
 content

---
 golibs/files/hash.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/golibs/files/hash.go b/golibs/files/hash.go
index f4ded1d..b77f07d 100644
--- a/golibs/files/hash.go
+++ b/golibs/files/hash.go
@@ -15,7 +15,7 @@ package files
 
 import (
 	"crypto/sha256"
-	"github.com/solarisdb/solaris/golibs/cast"
+	"fmt"
 	"github.com/solarisdb/solaris/golibs/strutil"
 	"os"
 	"path/filepath"
@@ -26,12 +26,12 @@ import (
 // if recursive is true then the hash will be calculated for all sub-folders as well, otherwise
 // only the files in path will be included, but all directories in path will be ignored.
 func HashDir(path string, testFunc func(fi os.FileInfo) bool, recursive bool) (strutil.Hash, error) {
-	path = ensureDirName(path)
 	_, err := os.Stat(path)
 	if os.IsNotExist(err) {
 		return nil, nil
 	}
 
+	path = filepath.Clean(path)
 	files := make(map[string]bool, 10)
 	files[path] = false
 
@@ -41,9 +41,7 @@ func HashDir(path string, testFunc func(fi os.FileInfo) bool, recursive bool) (s
 			return nil
 		}
 		if !recursive {
-			dir, _ := filepath.Split(pth)
-			dir = ensureDirName(dir)
-			if dir != path || info.IsDir() {
+			if filepath.Dir(pth) != path || info.IsDir() {
 				return nil
 			}
 		}
@@ -64,12 +62,18 @@ func HashDir(path string, testFunc func(fi os.FileInfo) bool, recursive bool) (s
 
 	h := sha256.New()
 	for _, name := range names {
-		h.Write(cast.StringToByteArray(name[len(path):]))
+		rel, err := filepath.Rel(path, name)
+		if err != nil {
+			return nil, err
+		}
+		// the lengths don't allow to mix up a name and the data
+		fmt.Fprintf(h, "%t %d:%s", files[name], len(rel), rel)
 		if files[name] {
 			data, err := os.ReadFile(name)
 			if err != nil {
 				return nil, err
 			}
+			fmt.Fprintf(h, "%d:", len(data))
 			h.Write(data)
 		}
 	}
-- 
2.43.0


From 38909182efcf0b0d5c5b51c50b992158db48aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 64/79] fix: zip must not write out of the destination folder,
 lose copying errors or mix up the names; random names must not hang in a
 wrong folder

---
 golibs/files/files.go   | 40 +++++++++++++++++++++-------------------
 golibs/files/ziputil.go |  8 +++++++-
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index 959a0d4..342b7e1 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -85,16 +85,6 @@ func EnsureFileExists(fn string) error {
 	return nil
 }
 
-func ensureDirName(path string) string {
-	if path == "" {
-		return ""
-	}
-	if path[len(path)-1] == '/' {
-		return path[:len(path)-1]
-	}
-	return path
-}
-
 // ListDir returns files and directories non-recursive (in the dir provided only)
 func ListDir(dir string) []os.FileInfo {
 	res := make([]os.FileInfo, 0, 10)
@@ -112,7 +102,7 @@ func ListDir(dir string) []os.FileInfo {
 // whether it should be zipped(true) or not(false).
 // The recursive param indicates whether sub-folders should be added recursively or not
 func ZipFolder(srcDir, destFile string, testFunc func(string) bool, recursive bool) error {
-	srcDir = ensureDirName(srcDir)
+	srcDir = filepath.Clean(srcDir)
 	f, err := os.Create(destFile)
 	if err != nil {
 		return fmt.Errorf("ZipFolder: could not create %s for write, err=%w", destFile, err)
@@ -134,15 +124,16 @@ func ZipFolder(srcDir, destFile string, testFunc func(string) bool, recursive bo
 		}
 
 		if !recursive {
-			dir, _ := filepath.Split(path)
-			dir = ensureDirName(dir)
-			if dir != srcDir {
+			if filepath.Dir(path) != srcDir {
 				// skipping subfolders
 				return nil
 			}
 		}
 
-		dstFileName := path[len(srcDir):]
+		dstFileName, err := filepath.Rel(srcDir, path)
+		if err != nil {
+			return err
+		}
 		out, err := w.Create(dstFileName)
 		if err != nil {
 			return fmt.Errorf("ZipFolder: could not write %s into %s, err=%w", path, dstFileName, err)
@@ -152,11 +143,13 @@ func ZipFolder(srcDir, destFile string, testFunc func(string) bool, recursive bo
 		if err != nil {
 			return fmt.Errorf("ZipFolder: could not write %s into %s, err=%w", path, dstFileName, err)
 		}
-		io.Copy(out, in)
+		_, err = io.Copy(out, in)
 		in.Close()
-		return nil
+		return err
 	})
-	w.Close()
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		os.Remove(destFile)
 	}
@@ -181,6 +174,10 @@ func UnzipToFolder(zipFile, destDir string) error {
 			continue
 		}
 
+		if !filepath.IsLocal(strings.TrimLeft(z.Name, "/")) {
+			return fmt.Errorf("UnzipToFolder: the file name %q leads out of the destination folder: %w", z.Name, errors.ErrInvalid)
+		}
+
 		partPath, _ := filepath.Split(z.Name)
 		destPath := filepath.Join(destDir, partPath)
 		if !pathChecked[destPath] {
@@ -205,7 +202,9 @@ func UnzipToFolder(zipFile, destDir string) error {
 
 		_, err = io.Copy(out, in)
 		in.Close()
-		out.Close()
+		if cerr := out.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			return fmt.Errorf("UnzipToFolder: could not write into %s from %s, err=%w", destDir, z.Name, err)
 		}
@@ -326,5 +325,8 @@ func ensureUndique(path, prefix string, createDir bool) (string, error) {
 			}
 			return filename, err
 		}
+		if err != nil {
+			return "", err
+		}
 	}
 }
diff --git a/golibs/files/ziputil.go b/golibs/files/ziputil.go
index a2d92a7..686cd3c 100644
--- a/golibs/files/ziputil.go
+++ b/golibs/files/ziputil.go
@@ -126,6 +126,9 @@ func (zw *ZipWriter) Close() error {
 // ZipCopy copy files from zi to zw adding the prefix name to each file from zi
 func ZipCopy(zw *ZipWriter, zi ZipIterator, prefix string) error {
 	for f := zi.Next(); f != nil; f = zi.Next() {
+		if f.FileInfo().IsDir() {
+			continue
+		}
 		fn := filepath.Join(prefix, f.Name)
 		w, err := zw.Create(fn)
 		if err != nil {
@@ -135,8 +138,11 @@ func ZipCopy(zw *ZipWriter, zi ZipIterator, prefix string) error {
 		if err != nil {
 			return fmt.Errorf("could not open file %s: %w", f.Name, err)
 		}
-		io.Copy(w, in)
+		_, err = io.Copy(w, in)
 		in.Close()
+		if err != nil {
+			return fmt.Errorf("could not copy file %s: %w", f.Name, err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 9e8a1936a74ba5482350ee6e05d3034ce155466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 65/79] fix: an element which is in both slices is not unique,
 even if it is repeated

---
 golibs/container/sliceutils.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/golibs/container/sliceutils.go b/golibs/container/sliceutils.go
index a68fe3e..893137f 100644
--- a/golibs/container/sliceutils.go
+++ b/golibs/container/sliceutils.go
@@ -64,15 +64,17 @@ func SliceExcludeOverlaps[V comparable](s1, s2 []V) ([]V, []V) {
 	}
 	uniqueS2 := []V{}
 	for _, v := range s2 {
-		if m[v] {
-			delete(m, v)
+		if _, ok := m[v]; ok {
+			m[v] = false
 		} else {
 			uniqueS2 = append(uniqueS2, v)
 		}
 	}
 	uniqueS1 := make([]V, 0, len(m))
-	for v := range m {
-		uniqueS1 = append(uniqueS1, v)
+	for v, unique := range m {
+		if unique {
+			uniqueS1 = append(uniqueS1, v)
+		}
 	}
 	return uniqueS1, uniqueS2
 }
-- 
2.43.0


From 9f1b241472500108a1dfde8282bc802491c6bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 66/79] fix: REST answers contain empty arrays, tags and
 payloads, not nulls, as the API schema requires

---
 pkg/api/rest/transformers.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/api/rest/transformers.go b/pkg/api/rest/transformers.go
index a7f87c8..4b28d56 100644
--- a/pkg/api/rest/transformers.go
+++ b/pkg/api/rest/transformers.go
@@ -23,6 +23,9 @@ func logToRest(sLog *solaris.Log) restapi.Log {
 	var rLog restapi.Log
 	rLog.Id = sLog.ID
 	rLog.Tags = sLog.Tags
+	if rLog.Tags == nil {
+		rLog.Tags = restapi.Tags{} // null is not an object
+	}
 	if sLog.CreatedAt != nil {
 		rLog.CreatedAt = sLog.CreatedAt.AsTime()
 	}
@@ -33,7 +36,7 @@ func logToRest(sLog *solaris.Log) restapi.Log {
 }
 
 func logsToRest(sLogs []*solaris.Log) []restapi.Log {
-	var rLogs []restapi.Log
+	rLogs := make([]restapi.Log, 0, len(sLogs)) // not nil, it must be the array in JSON
 	for _, l := range sLogs {
 		rLogs = append(rLogs, logToRest(l))
 	}
@@ -59,6 +62,9 @@ func recToRest(sRec *solaris.Record) restapi.Record {
 	rRec.Id = sRec.ID
 	rRec.LogId = sRec.LogID
 	rRec.Payload = sRec.Payload
+	if rRec.Payload == nil {
+		rRec.Payload = []byte{} // null is not a string
+	}
 	if sRec.CreatedAt != nil {
 		rRec.CreatedAt = sRec.CreatedAt.AsTime()
 	}
@@ -66,7 +72,7 @@ func recToRest(sRec *solaris.Record) restapi.Record {
 }
 
 func recsToRest(sRecs []*solaris.Record) []restapi.Record {
-	var rRecs []restapi.Record
+	rRecs := make([]restapi.Record, 0, len(sRecs)) // not nil, it must be the array in JSON
 	for _, r := range sRecs {
 		rRecs = append(rRecs, recToRest(r))
 	}
-- 
2.43.0


From e589ae6a2d2698b86554bd4e6f05a0736f3b5bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 67/79] fix: REST records query without the limit returns the
 first page, not nothing

---
 pkg/api/rest/rest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/api/rest/rest.go b/pkg/api/rest/rest.go
index 88ad023..6427937 100644
--- a/pkg/api/rest/rest.go
+++ b/pkg/api/rest/rest.go
@@ -37,6 +37,9 @@ type (
 	}
 )
 
+// defaultRecordsLimit is the records page size if the (optional) limit is not provided
+const defaultRecordsLimit = 50
+
 var _ restapi.ServerInterface = (*Rest)(nil)
 
 func New(svc *api.Service) *Rest {
@@ -123,7 +126,7 @@ func (r *Rest) QueryRecords(c *gin.Context, params restapi.QueryRecordsParams) {
 	sReq.LogIDs = cast.Value(params.LogIds, nil)
 	sReq.Descending = cast.Bool(params.Desc, false)
 	sReq.StartRecordID = cast.String(params.FromPageId, "")
-	sReq.Limit = int64(cast.Int(params.Limit, 0))
+	sReq.Limit = int64(cast.Int(params.Limit, defaultRecordsLimit))
 
 	sResQ, err := r.svc.QueryRecords(c, sReq)
 	if r.errorResponse(c, err, "") {
-- 
2.43.0


From 4178b42ec60679d0903f615e42a4d06d591d4bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 68/79] fix: malformed REST requests are reported as invalid
 ones, not as internal errors

---
 pkg/api/rest/rest.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/api/rest/rest.go b/pkg/api/rest/rest.go
index 6427937..8b5acff 100644
--- a/pkg/api/rest/rest.go
+++ b/pkg/api/rest/rest.go
@@ -177,11 +177,11 @@ func (r *Rest) errorResponse(c *gin.Context, err error, msg string) bool {
 func BindAppJson(c *gin.Context, inf interface{}) error {
 	ct := c.ContentType()
 	if ct != "application/json" {
-		return fmt.Errorf("invalid content type %s, \"application/json\" expected. err=%w", ct, errors.ErrInternal)
+		return fmt.Errorf("invalid content type %s, \"application/json\" expected. err=%w", ct, errors.ErrInvalid)
 	}
-	err := c.Bind(inf)
+	err := c.ShouldBindJSON(inf)
 	if err != nil {
-		err = fmt.Errorf("%s: %w", err.Error(), errors.ErrInternal)
+		err = fmt.Errorf("%s: %w", err.Error(), errors.ErrInvalid)
 	}
 	return err
 }
-- 
2.43.0


From 8f99f87230bb8dd29dd702cae139e791d9920ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 69/79] fix: REST API reports the too large request as 413, not
 as an internal error

---
 pkg/api/rest/rest.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/api/rest/rest.go b/pkg/api/rest/rest.go
index 8b5acff..db970e5 100644
--- a/pkg/api/rest/rest.go
+++ b/pkg/api/rest/rest.go
@@ -169,6 +169,8 @@ func (r *Rest) errorResponse(c *gin.Context, err error, msg string) bool {
 		status = http.StatusConflict
 	} else if errors.Is(err, errors.ErrConflict) {
 		status = http.StatusConflict
+	} else if errors.Is(err, errors.ErrExhausted) {
+		status = http.StatusRequestEntityTooLarge
 	}
 	return true
 }
-- 
2.43.0


From 916a4b97d4e335317d48cd44d2cae52c83d1819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 70/79] fix: REST handlers pass the request context, the gin
 one must not be used after the request is over

---
 pkg/api/rest/rest.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/api/rest/rest.go b/pkg/api/rest/rest.go
index db970e5..fa99c91 100644
--- a/pkg/api/rest/rest.go
+++ b/pkg/api/rest/rest.go
@@ -56,7 +56,7 @@ func (r *Rest) CreateLog(c *gin.Context) {
 	if r.errorResponse(c, BindAppJson(c, &rReq), "") {
 		return
 	}
-	sLog, err := r.svc.CreateLog(c, &solaris.Log{Tags: rReq.Tags})
+	sLog, err := r.svc.CreateLog(c.Request.Context(), &solaris.Log{Tags: rReq.Tags})
 	if r.errorResponse(c, err, "") {
 		return
 	}
@@ -68,7 +68,7 @@ func (r *Rest) UpdateLog(c *gin.Context, logId restapi.LogId) {
 	if r.errorResponse(c, BindAppJson(c, &rReq), "") {
 		return
 	}
-	sLog, err := r.svc.UpdateLog(c, &solaris.Log{ID: logId, Tags: rReq.Tags})
+	sLog, err := r.svc.UpdateLog(c.Request.Context(), &solaris.Log{ID: logId, Tags: rReq.Tags})
 	if r.errorResponse(c, err, "") {
 		return
 	}
@@ -80,7 +80,7 @@ func (r *Rest) DeleteLogs(c *gin.Context) {
 	if r.errorResponse(c, BindAppJson(c, &rReq), "") {
 		return
 	}
-	sRes, err := r.svc.DeleteLogs(c, &solaris.DeleteLogsRequest{Condition: rReq.FilterCondition})
+	sRes, err := r.svc.DeleteLogs(c.Request.Context(), &solaris.DeleteLogsRequest{Condition: rReq.FilterCondition})
 	if r.errorResponse(c, err, "") {
 		return
 	}
@@ -93,7 +93,7 @@ func (r *Rest) QueryLogs(c *gin.Context, params restapi.QueryLogsParams) {
 	sReq.Limit = int64(cast.Int(params.Limit, 0))
 	sReq.PageID = cast.String(params.FromPageId, "")
 
-	sRes, err := r.svc.QueryLogs(c, sReq)
+	sRes, err := r.svc.QueryLogs(c.Request.Context(), sReq)
 	if r.errorResponse(c, err, "") {
 		return
 	}
@@ -112,7 +112,7 @@ func (r *Rest) CreateRecords(c *gin.Context, logId restapi.LogId) {
 	sReq := new(solaris.AppendRecordsRequest)
 	sReq.LogID = logId
 	sReq.Records = createRecsToSvc(rReq.Records)
-	sRes, err := r.svc.AppendRecords(c, sReq)
+	sRes, err := r.svc.AppendRecords(c.Request.Context(), sReq)
 	if r.errorResponse(c, err, "") {
 		return
 	}
@@ -128,11 +128,11 @@ func (r *Rest) QueryRecords(c *gin.Context, params restapi.QueryRecordsParams) {
 	sReq.StartRecordID = cast.String(params.FromPageId, "")
 	sReq.Limit = int64(cast.Int(params.Limit, defaultRecordsLimit))
 
-	sResQ, err := r.svc.QueryRecords(c, sReq)
+	sResQ, err := r.svc.QueryRecords(c.Request.Context(), sReq)
 	if r.errorResponse(c, err, "") {
 		return
 	}
-	sResC, err := r.svc.CountRecords(c, sReq)
+	sResC, err := r.svc.CountRecords(c.Request.Context(), sReq)
 	if r.errorResponse(c, err, "") {
 		return
 	}
-- 
2.43.0


From e738c51928ba443ea33fd6290afaf31e2d3a001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:02 +0000
Subject: [PATCH 71/79] fix: gRPC server Shutdown() stops serving existing
 connections, not the listening only

---
 pkg/grpc/server.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/grpc/server.go b/pkg/grpc/server.go
index 4d1204e..1638b8a 100644
--- a/pkg/grpc/server.go
+++ b/pkg/grpc/server.go
@@ -20,8 +20,8 @@ import (
 	"fmt"
 	"github.com/solarisdb/solaris/golibs/logging"
 	"github.com/solarisdb/solaris/golibs/transport"
-	"net"
 	"sync/atomic"
+	"time"
 
 	"github.com/logrange/linker"
 	"google.golang.org/grpc"
@@ -46,7 +46,7 @@ type Server struct {
 	// Config contains the server connection interface
 	cfg Config
 
-	listnr net.Listener
+	gs     *grpc.Server
 	closed int32
 	logger logging.Logger
 }
@@ -70,15 +70,16 @@ func (s *Server) Init(ctx context.Context) error {
 		return fmt.Errorf("could not start listener for %v, err=%w", s.cfg.Transport, err)
 	}
 
-	s.listnr = lis
 	gs := grpc.NewServer()
 	err = s.cfg.RegisterEndpoints(gs)
 	if err != nil {
+		lis.Close()
 		return fmt.Errorf("could not register endpoints: %w", err)
 	}
 
 	// Register reflection service on gRPC server.
 	reflection.Register(gs)
+	s.gs = gs
 	go func() {
 		s.logger.Infof("Starting go routine by listening gRPC solaris connections")
 		if err := gs.Serve(lis); err != nil && atomic.LoadInt32(&s.closed) == 0 {
@@ -93,9 +94,20 @@ func (s *Server) Init(ctx context.Context) error {
 // Shutdown is an implementation of linker.Shutdowner. It must be called once, not thread-safe.
 func (s *Server) Shutdown() {
 	s.logger.Infof("Shutting down...")
-	if s.listnr != nil {
-		atomic.StoreInt32(&s.closed, 1)
-		s.listnr.Close()
+	if s.gs == nil {
+		return
+	}
+	atomic.StoreInt32(&s.closed, 1)
+	// closing the listener only is not enough: the existing connections would be served still
+	done := make(chan struct{})
+	go func() {
+		s.gs.GracefulStop()
+		close(done)
+	}()
+	select {
+	case <-done:
+	case <-time.After(time.Second):
+		s.gs.Stop()
 	}
 }
 
-- 
2.43.0


From 220cada78a43aaaa31f260507b05f9a94c812880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 72/79] fix: the HTTP server which cannot listen on its port is
 an error, don't run without it

---
 pkg/http/router.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/http/router.go b/pkg/http/router.go
index aa8984d..3623589 100644
--- a/pkg/http/router.go
+++ b/pkg/http/router.go
@@ -20,6 +20,7 @@ import (
 	"github.com/gin-gonic/gin"
 	"github.com/logrange/linker"
 	"github.com/solarisdb/solaris/golibs/logging"
+	"net"
 	"net/http"
 	"time"
 )
@@ -78,6 +79,10 @@ func (r *Router) Init(_ context.Context) error {
 	}
 
 	addr := fmt.Sprintf("%s:%d", r.config.HttpAddr, r.config.HttpPort)
+	lis, err := net.Listen("tcp", addr)
+	if err != nil {
+		return fmt.Errorf("could not start listener for %s: %w", addr, err)
+	}
 	r.srv = &http.Server{
 		Addr:    addr,
 		Handler: r.r,
@@ -86,7 +91,7 @@ func (r *Router) Init(_ context.Context) error {
 	go func() {
 		// service connections
 		r.logger.Infof("Starting serving connections")
-		_ = r.srv.ListenAndServe()
+		_ = r.srv.Serve(lis)
 	}()
 
 	r.logger.Infof("Initialized to serve HTTP requests on %s", addr)
-- 
2.43.0


From a057d9047889d4ce69080cf31df88a64407f947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 73/79] fix: QueryLogs releases the connection of the count
 query, concurrent requests hang holding all the connections of the pool

---
 pkg/storage/postgres/postgres.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index a8d807d..88c41b7 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -132,11 +132,12 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 	if err != nil {
 		return nil, MapError(err)
 	}
-	defer func() {
-		_ = cntRows.Close()
-	}()
 	var count int64
-	if count, err = scan[int64](cntRows); err != nil {
+	count, err = scan[int64](cntRows)
+	// release the connection before the next query: if all the connections are held by the requests, which
+	// need the second one, none of them will ever get it
+	_ = cntRows.Close()
+	if err != nil {
 		return nil, MapError(err)
 	}
 
-- 
2.43.0


From c8141cb15f969fcc624292cbe1f2891ad17d6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 74/79] fix: 'day' and 'week' are the local midnights also when
 the clock was moved since then

---
 pkg/ql/datetime.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index e9cc37c..706aaf1 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -210,13 +210,12 @@ func parseConstantsDateTime(dt string) (time.Time, error) {
 		now = now.Add(
 			-time.Duration(m)*time.Minute - time.Duration(s)*time.Second - time.Duration(now.Nanosecond()))
 	case "day":
-		h, m, s := now.Clock()
-		now = now.Add(-time.Duration(h)*time.Hour - time.Duration(m)*time.Minute - time.Duration(s)*time.Second - time.Duration(now.Nanosecond()))
+		// days may be not 24 hours long, so the calendar is used
+		y, m, d := now.Date()
+		now = time.Date(y, m, d, 0, 0, 0, 0, now.Location())
 	case "week":
-		h, m, s := now.Clock()
-		wd := now.Weekday()
-		h += 24 * int(wd)
-		now = now.Add(-time.Duration(h)*time.Hour - time.Duration(m)*time.Minute - time.Duration(s)*time.Second - time.Duration(now.Nanosecond()))
+		y, m, d := now.Date()
+		now = time.Date(y, m, d-int(now.Weekday()), 0, 0, 0, 0, now.Location())
 	default:
 		return time.Time{}, fmt.Errorf("unknown time constant %q: %w", dt, errors.ErrInvalid)
 	}
-- 
2.43.0


From 0d74fa2919ab4ba92137f01626458d3ed874fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:58 +0000
Subject: [PATCH 75/79] fix: a sleeping worker must learn about the next
 scheduled call when the others get busy

---
 golibs/timeout/timeout.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/golibs/timeout/timeout.go b/golibs/timeout/timeout.go
index 447d57b..1653697 100644
--- a/golibs/timeout/timeout.go
+++ b/golibs/timeout/timeout.go
@@ -106,7 +106,6 @@ func (cc *callControl) add(fu *future) {
 		cc.watchers++
 		go cc.watcher()
 	} else {
-		cc.notifyWatcher()
 		cc.guard()
 	}
 }
@@ -114,7 +113,12 @@ func (cc *callControl) add(fu *future) {
 // guard must be called under the lock. It takes care of the next future when all the watchers
 // are running the functions, so that the functions which take long will not block the others
 func (cc *callControl) guard() {
-	if cc.sleeping > 0 || cc.watchers >= cc.maxWorkers || cc.futures.Len() == 0 {
+	if cc.sleeping > 0 && cc.futures.Len() > 0 {
+		// the sleeping watcher may not know about the next future, so let it check
+		cc.notifyWatcher()
+		return
+	}
+	if cc.watchers >= cc.maxWorkers || cc.futures.Len() == 0 {
 		return
 	}
 	tmt := time.Until((*cc.futures)[0].fireT) + time.Millisecond
-- 
2.43.0


From 8972f3d19872afe40a3d0f50646e705178e114b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 76/79] fix: the path values must not be unescaped twice by the
 HTTP server

---
 pkg/http/router.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/http/router.go b/pkg/http/router.go
index 3623589..c77a8d7 100644
--- a/pkg/http/router.go
+++ b/pkg/http/router.go
@@ -85,7 +85,7 @@ func (r *Router) Init(_ context.Context) error {
 	}
 	r.srv = &http.Server{
 		Addr:    addr,
-		Handler: r.r,
+		Handler: withRawPath(r.r),
 	}
 
 	go func() {
@@ -98,6 +98,16 @@ func (r *Router) Init(_ context.Context) error {
 	return nil
 }
 
+// withRawPath returns the handler, which always has the escaped form of the path in URL.RawPath. The URL parsing sets the
+// field only when the path is escaped not in the default way. The router would use the already unescaped path otherwise,
+// so the path values would be unescaped twice: by the URL parsing and by the endpoints code
+func withRawPath(h http.Handler) http.Handler {
+	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
+		req.URL.RawPath = req.URL.EscapedPath()
+		h.ServeHTTP(w, req)
+	})
+}
+
 // Shutdown implements linker.Shutdowner
 func (r *Router) Shutdown() {
 	r.logger.Infof("Shutdown...")
-- 
2.43.0


From 4d642c55a9b0da30fb506ef343ec508dbb5d7564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:41 +0000
Subject: [PATCH 77/79] fix: golibs/datetime: the known format with a zone name
 and am/pm in lower case are parsed

---
 golibs/datetime/date.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/golibs/datetime/date.go b/golibs/datetime/date.go
index b57fba6..e39be1d 100644
--- a/golibs/datetime/date.go
+++ b/golibs/datetime/date.go
@@ -41,6 +41,7 @@ type (
 		dRegexp     *regexp.Regexp // regexp to determine given format in a line
 		hasLocation bool           // if format doesn't have location UTC is used
 		hasYear     bool           // if format doesn't have year, current/previous year is used
+		hasAmPm     bool           // if format has the 12-hours clock mark (am, AM, pm, PM)
 		noDate      bool           // if format doesn't have date, usually time only like 'hh:mm:ss.SSS'
 	}
 
@@ -68,7 +69,7 @@ var (
 	KnownFormats = []string{
 		"MMM D, YYYY h:mm:ss P",
 		"DDD MMM _D HH:mm:ss YYYY",
-		"DDD MMM _D HH:mm:ss MST YYYY",
+		"DDD MMM _D HH:mm:ss ZZZ YYYY",
 		"DDD MMM DD HH:mm:ss ZZZZ YYYY",
 		"DDDD, YY-MMM-DD HH:mm:ss ZZZ",
 		"DDD, DD MMM YYYY HH:mm:ss ZZZ",
@@ -215,6 +216,7 @@ func newParser(groupExpr string, fmts ...string) *parser {
 		noDate := !strings.ContainsAny(fmtStr, "YMD")
 		hasYear := !noDate && strings.Contains(fmtStr, "Y")
 		hasLocation := strings.Contains(fmtStr, "Z")
+		hasAmPm := strings.Contains(fmtStr, "P")
 		dRegexp := regexp.MustCompile(fmt.Sprintf(groupExpr, dateGroup, regexpMap(fmtStr)))
 
 		grps := dRegexp.SubexpNames()
@@ -229,6 +231,7 @@ func newParser(groupExpr string, fmts ...string) *parser {
 			dRegexp:     dRegexp,
 			hasLocation: hasLocation,
 			hasYear:     hasYear,
+			hasAmPm:     hasAmPm,
 			noDate:      noDate,
 		}
 	}
@@ -283,6 +286,11 @@ func (f *Format) Parse(buf []byte) (tm time.Time, err error) {
 	// careful (!) string is mutable through original byte slice
 	str := *(*string)(unsafe.Pointer(&match[1]))
 
+	if f.hasAmPm {
+		// the layout accepts "AM" and "PM" only
+		str = strings.ToUpper(str)
+	}
+
 	if f.hasLocation {
 		tm, err = time.Parse(f.dLayout, str)
 	} else {
-- 
2.43.0


From 19032ae1e08c63647389d56566c1b7b1ccc97ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:41 +0000
Subject: [PATCH 78/79] fix: golibs/files: a file which can't be extended stays
 available

---
 golibs/files/mmfile.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/golibs/files/mmfile.go b/golibs/files/mmfile.go
index 570d0da..a0a39c6 100644
--- a/golibs/files/mmfile.go
+++ b/golibs/files/mmfile.go
@@ -130,7 +130,11 @@ func (mmf *MMFile) Grow(newSize int64) (err error) {
 	mmf.unmap()
 
 	if err = mmf.f.Truncate(newSize); err != nil {
-		mmf.Close()
+		// no place on the disk, for instance. The file is what it was, so its content must be available still
+		var merr error
+		if mmf.mf, merr = mmap.MapRegion(mmf.f, int(mmf.size), mmap.RDWR, 0, 0); merr != nil {
+			mmf.Close()
+		}
 		return fmt.Errorf("could not extend file size to %d: %w", newSize, err)
 	}
 
-- 
2.43.0


From 1363c06c335f5d8346c8d998d6cd574d33c3afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:41 +0000
Subject: [PATCH 79/79] fix: pkg/storage/buntdb: a failed commit is an error,
 not a panic

---
 pkg/storage/buntdb/buntdb.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 0918c02..204232e 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -108,7 +108,9 @@ func (s *Storage) CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log
 		return nil, fmt.Errorf("tx.Set(%s, %s) failed: %w", key, val, err)
 	}
 
-	mustCommit(tx)
+	if err := commit(tx); err != nil {
+		return nil, err
+	}
 	return toLog(le), nil
 }
 
@@ -150,7 +152,9 @@ func (s *Storage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log
 		return nil, fmt.Errorf("tx.Set(key=%s, val=%s) failed, replaced=%t: %w", key, val, replaced, err)
 	}
 
-	mustCommit(tx)
+	if err := commit(tx); err != nil {
+		return nil, err
+	}
 	return toLog(le), nil
 }
 
@@ -204,7 +208,9 @@ func (s *Storage) deleteLogsByIDs(ctx context.Context, req storage.DeleteLogsReq
 	if err != nil {
 		return nil, err
 	}
-	mustCommit(tx)
+	if err := commit(tx); err != nil {
+		return nil, err
+	}
 	return res, nil
 }
 
@@ -299,7 +305,9 @@ func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteL
 	if err != nil {
 		return nil, err
 	}
-	mustCommit(tx)
+	if err := commit(tx); err != nil {
+		return nil, err
+	}
 	return res, nil
 }
 
@@ -487,8 +495,7 @@ func (s *Storage) UpsertChunkInfos(ctx context.Context, logID string, cis []logf
 		}
 	}
 
-	mustCommit(tx)
-	return nil
+	return commit(tx)
 }
 
 func getLogChunks(ctx context.Context, tx *buntdb.Tx, logID string) ([]logfs.ChunkInfo, error) {
@@ -525,10 +532,12 @@ func mustBeginTx(db *buntdb.DB, writable bool) *buntdb.Tx {
 	return tx
 }
 
-func mustCommit(tx *buntdb.Tx) {
+// commit writes the transaction, which is rolled back if the write fails (no place on the disk etc.)
+func commit(tx *buntdb.Tx) error {
 	if err := tx.Commit(); err != nil {
-		panic(fmt.Errorf("mustCommit() failed: %v", err))
+		return fmt.Errorf("tx.Commit() failed: %w", err)
 	}
+	return nil
 }
 
 func mustRollback(tx *buntdb.Tx) {
-- 
2.43.0


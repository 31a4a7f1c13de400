From 15ffbe0675f308f9a1f13071050e781c3aed003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 001/118] fix: IntervalDayType.WithNullability must return a
 copy, not change the receiver

---
 types/interval_day_type.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/interval_day_type.go b/types/interval_day_type.go
index 0d0369b..3bf0401 100644
--- a/types/interval_day_type.go
+++ b/types/interval_day_type.go
@@ -19,8 +19,9 @@ func (m *IntervalDayType) GetPrecisionProtoVal() int32 {
 
 func (*IntervalDayType) isRootRef() {}
 func (m *IntervalDayType) WithNullability(n Nullability) Type {
-	m.Nullability = n
-	return m
+	out := *m
+	out.Nullability = n
+	return &out
 }
 
 func (m *IntervalDayType) GetType() Type                     { return m }
-- 
2.43.0


From ca9dbb122a4acd161f52a9213f703e2394e061c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 002/118] fix: IntervalCompoundType.WithPrecision keeps the
 type variation reference

---
 types/interval_compound_type.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/types/interval_compound_type.go b/types/interval_compound_type.go
index 0ff09d6..d729e85 100644
--- a/types/interval_compound_type.go
+++ b/types/interval_compound_type.go
@@ -37,10 +37,8 @@ func (m IntervalCompoundType) WithNullability(n Nullability) Type {
 }
 
 func (m IntervalCompoundType) WithPrecision(precision TimePrecision) IntervalCompoundType {
-	return IntervalCompoundType{
-		precision:   precision,
-		nullability: m.nullability,
-	}
+	m.precision = precision
+	return m
 }
 
 func (m IntervalCompoundType) GetType() Type                     { return m }
-- 
2.43.0


From 1b59e08810271f0e2f5fd6c058eb3edb503e8735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 003/118] fix: TypeToProto handles decoded compound intervals
 and IntervalYearToMonthType

---
 types/types.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/types/types.go b/types/types.go
index 3407436..b88778e 100644
--- a/types/types.go
+++ b/types/types.go
@@ -739,12 +739,11 @@ func TypeToProto(t Type) *proto.Type {
 				Nullability:            proto.Type_Nullability(t.Nullability),
 				TypeVariationReference: t.TypeVariationRef}}}
 	case IntervalCompoundType:
-		precision := t.precision.ToProtoVal()
-		return &proto.Type{Kind: &proto.Type_IntervalCompound_{
-			IntervalCompound: &proto.Type_IntervalCompound{
-				Precision:              precision,
-				Nullability:            proto.Type_Nullability(t.nullability),
-				TypeVariationReference: t.typeVariationRef}}}
+		return t.ToProto()
+	case *IntervalCompoundType:
+		return t.ToProto()
+	case IntervalYearToMonthType:
+		return t.ToProto()
 	case *UUIDType:
 		return &proto.Type{Kind: &proto.Type_Uuid{
 			Uuid: &proto.Type_UUID{
-- 
2.43.0


From 1abd2bab97834887ee08ae16b862666021de30c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 004/118] fix: the two interval_year type representations
 compare equal

---
 types/interval_year_month_type.go | 4 ++++
 types/types.go                    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/types/interval_year_month_type.go b/types/interval_year_month_type.go
index 9300fd4..17e94bf 100644
--- a/types/interval_year_month_type.go
+++ b/types/interval_year_month_type.go
@@ -38,6 +38,10 @@ func (m IntervalYearToMonthType) Equals(rhs Type) bool {
 	if o, ok := rhs.(IntervalYearToMonthType); ok {
 		return o == m
 	}
+	// a decoded interval_year has the primitive representation
+	if o, ok := rhs.(*IntervalYearType); ok {
+		return o.Equals(m)
+	}
 	return false
 }
 
diff --git a/types/types.go b/types/types.go
index b88778e..309c91b 100644
--- a/types/types.go
+++ b/types/types.go
@@ -890,6 +890,9 @@ func (s *PrimitiveType[T]) GetType() Type                     { return s }
 func (s *PrimitiveType[T]) GetNullability() Nullability       { return s.Nullability }
 func (s *PrimitiveType[T]) GetTypeVariationReference() uint32 { return s.TypeVariationRef }
 func (s *PrimitiveType[T]) Equals(rhs Type) bool {
+	if o, ok := rhs.(IntervalYearToMonthType); ok {
+		rhs = &IntervalYearType{Nullability: o.nullability, TypeVariationRef: o.typeVariationRef}
+	}
 	if o, ok := rhs.(*PrimitiveType[T]); ok {
 		return *o == *s
 	}
-- 
2.43.0


From dfeaa535c4ab2c17422a460f99706b87f4bdd2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 005/118] fix: report protobuf literals that cannot be
 represented

A literal whose value is missing, does not fit its type or is malformed
decoded to a nil expression without an error, panicked, or was silently
wrapped. ExprFromProto and the plan decoder now return an error for it and
LiteralFromProto returns nil.
---
 expr/expression.go      |   6 +-
 expr/literals.go        | 125 ++++++++++++++++++++++++++++++++++++++--
 plan/internal/helper.go |  13 ++++-
 plan/plan.go            |  14 ++++-
 4 files changed, 145 insertions(+), 13 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 0ea24aa..df2dfcc 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -59,7 +59,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 	switch et := e.RexType.(type) {
 	case *proto.Expression_Literal_:
-		return LiteralFromProto(et.Literal), nil
+		return literalFromProto(et.Literal)
 	case *proto.Expression_Selection:
 		return FieldReferenceFromProto(et.Selection, baseSchema, reg)
 	case *proto.Expression_ScalarFunction_:
@@ -192,7 +192,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			Then Expression
 		}, len(et.SwitchExpression.Ifs))
 		for i, clause := range et.SwitchExpression.Ifs {
-			ifs[i].If = LiteralFromProto(clause.If)
+			if ifs[i].If, err = literalFromProto(clause.GetIf()); err != nil {
+				return nil, err
+			}
 			ifs[i].Then, err = ExprFromProto(clause.Then, baseSchema, reg)
 			if err != nil {
 				return nil, err
diff --git a/expr/literals.go b/expr/literals.go
index f43e5cc..96a95da 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -998,8 +998,123 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 }
 
 // LiteralFromProto constructs the appropriate Literal struct from
-// a protobuf message.
+// a protobuf message. It returns nil if the message is not a valid literal.
 func LiteralFromProto(l *proto.Expression_Literal) Literal {
+	lit, err := literalFromProto(l)
+	if err != nil {
+		return nil
+	}
+	return lit
+}
+
+// literalFromProto is LiteralFromProto reporting why a message is not a valid literal.
+func literalFromProto(l *proto.Expression_Literal) (lit Literal, err error) {
+	defer func() {
+		// malformed types inside the literal are reported by panicking
+		if r := recover(); r != nil {
+			lit, err = nil, fmt.Errorf("%w: invalid literal: %v", substraitgo.ErrInvalidExpr, r)
+		}
+	}()
+	if err := validateLiteralProto(l); err != nil {
+		return nil, fmt.Errorf("%w: %w", substraitgo.ErrInvalidExpr, err)
+	}
+	if lit = decodeLiteral(l); lit == nil {
+		return nil, fmt.Errorf("%w: invalid literal %v", substraitgo.ErrInvalidExpr, l)
+	}
+	return lit, nil
+}
+
+// validateLiteralProto reports a literal message, or one nested in it, whose
+// value is missing or cannot be represented by the literal's type.
+func validateLiteralProto(l *proto.Expression_Literal) error {
+	switch lit := l.GetLiteralType().(type) {
+	case nil:
+		return fmt.Errorf("literal has no value")
+	case *proto.Expression_Literal_I8:
+		if lit.I8 != int32(int8(lit.I8)) {
+			return fmt.Errorf("value %d does not fit i8", lit.I8)
+		}
+	case *proto.Expression_Literal_I16:
+		if lit.I16 != int32(int16(lit.I16)) {
+			return fmt.Errorf("value %d does not fit i16", lit.I16)
+		}
+	case *proto.Expression_Literal_VarChar_:
+		if lit.VarChar.GetLength() > math.MaxInt32 {
+			return fmt.Errorf("varchar length %d is too large", lit.VarChar.GetLength())
+		}
+	case *proto.Expression_Literal_Decimal_:
+		if n := len(lit.Decimal.GetValue()); n != 16 {
+			return fmt.Errorf("decimal value must be 16 bytes, got %d", n)
+		}
+	case *proto.Expression_Literal_IntervalDayToSecond_:
+		return validateLiteralPrecision(lit.IntervalDayToSecond.GetPrecision(), 0)
+	case *proto.Expression_Literal_IntervalCompound_:
+		if intervalCompoundLiteralFromProto(l) == nil {
+			return fmt.Errorf("invalid interval compound literal")
+		}
+	case *proto.Expression_Literal_PrecisionTime_:
+		return validateLiteralPrecision(lit.PrecisionTime.GetPrecision(), lit.PrecisionTime.GetValue())
+	case *proto.Expression_Literal_PrecisionTimestamp_:
+		return validateLiteralPrecision(lit.PrecisionTimestamp.GetPrecision(), lit.PrecisionTimestamp.GetValue())
+	case *proto.Expression_Literal_PrecisionTimestampTz:
+		return validateLiteralPrecision(lit.PrecisionTimestampTz.GetPrecision(), lit.PrecisionTimestampTz.GetValue())
+	case *proto.Expression_Literal_Struct_:
+		for _, f := range lit.Struct.GetFields() {
+			if err := validateLiteralProto(f); err != nil {
+				return err
+			}
+		}
+	case *proto.Expression_Literal_List_:
+		if len(lit.List.GetValues()) == 0 {
+			return fmt.Errorf("list literal without values must use the empty list form")
+		}
+		for _, v := range lit.List.GetValues() {
+			if err := validateLiteralProto(v); err != nil {
+				return err
+			}
+		}
+	case *proto.Expression_Literal_Map_:
+		if len(lit.Map.GetKeyValues()) == 0 {
+			return fmt.Errorf("map literal without entries must use the empty map form")
+		}
+		for _, kv := range lit.Map.GetKeyValues() {
+			if err := validateLiteralProto(kv.GetKey()); err != nil {
+				return err
+			}
+			if err := validateLiteralProto(kv.GetValue()); err != nil {
+				return err
+			}
+		}
+	case *proto.Expression_Literal_UserDefined_:
+		return validateUserDefinedLiteralProto(lit.UserDefined)
+	}
+	return nil
+}
+
+func validateLiteralPrecision(precision int32, value int64) error {
+	if value < 0 {
+		return fmt.Errorf("value %d is negative", value)
+	}
+	_, err := types.ProtoToTimePrecision(precision)
+	return err
+}
+
+func validateUserDefinedLiteralProto(u *proto.Expression_Literal_UserDefined) error {
+	if _, ok := u.GetTypeAnchorType().(*proto.Expression_Literal_UserDefined_TypeAliasReference); ok {
+		return fmt.Errorf("type alias references in user-defined literals are not supported")
+	}
+	if u.GetVal() == nil {
+		return fmt.Errorf("user-defined literal has no value")
+	}
+	for _, p := range u.GetTypeParameters() {
+		if p.GetParameter() == nil {
+			return fmt.Errorf("user-defined literal has an unset type parameter")
+		}
+	}
+	return nil
+}
+
+func decodeLiteral(l *proto.Expression_Literal) Literal {
 	nullability := getNullability(l.Nullable)
 
 	switch lit := l.LiteralType.(type) {
@@ -1160,7 +1275,7 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		typeList := make([]types.Type, len(lit.Struct.Fields))
 		fields := make([]Literal, len(lit.Struct.Fields))
 		for i, f := range lit.Struct.Fields {
-			fields[i] = LiteralFromProto(f)
+			fields[i] = decodeLiteral(f)
 			typeList[i] = fields[i].GetType()
 		}
 
@@ -1174,8 +1289,8 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 	case *proto.Expression_Literal_Map_:
 		ret := make(MapLiteralValue, len(lit.Map.KeyValues))
 		for i, kv := range lit.Map.KeyValues {
-			ret[i].Key = LiteralFromProto(kv.Key)
-			ret[i].Value = LiteralFromProto(kv.Value)
+			ret[i].Key = decodeLiteral(kv.Key)
+			ret[i].Value = decodeLiteral(kv.Value)
 		}
 		return &MapLiteral{
 			Value: ret,
@@ -1188,7 +1303,7 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 	case *proto.Expression_Literal_List_:
 		ret := make(ListLiteralValue, len(lit.List.Values))
 		for i, v := range lit.List.Values {
-			ret[i] = LiteralFromProto(v)
+			ret[i] = decodeLiteral(v)
 		}
 		return &NestedLiteral[ListLiteralValue]{
 			Value: ListLiteralValue(ret),
diff --git a/plan/internal/helper.go b/plan/internal/helper.go
index aa0424b..99bfc78 100644
--- a/plan/internal/helper.go
+++ b/plan/internal/helper.go
@@ -1,6 +1,9 @@
 package internal
 
 import (
+	"fmt"
+
+	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/expr"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 )
@@ -17,10 +20,14 @@ func VirtualTableExpressionFromProto(s *proto.Expression_Nested_Struct, reg expr
 	return fields, nil
 }
 
-func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) expr.VirtualTableExpressionValue {
+func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) (expr.VirtualTableExpressionValue, error) {
 	fields := make(expr.VirtualTableExpressionValue, len(s.Fields))
 	for i, f := range s.Fields {
-		fields[i] = expr.LiteralFromProto(f)
+		lit := expr.LiteralFromProto(f)
+		if lit == nil {
+			return nil, fmt.Errorf("%w: invalid virtual table literal %v", substraitgo.ErrInvalidExpr, f)
+		}
+		fields[i] = lit
 	}
-	return fields
+	return fields, nil
 }
diff --git a/plan/plan.go b/plan/plan.go
index 43fbb1b..8dee843 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -261,9 +261,13 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 	if len(plan.ParameterBindings) > 0 {
 		ret.parameterBindings = make([]DynamicParameterBinding, len(plan.ParameterBindings))
 		for i, pb := range plan.ParameterBindings {
+			value := expr.LiteralFromProto(pb.GetValue())
+			if value == nil {
+				return nil, fmt.Errorf("%w: invalid value bound to parameter %d", substraitgo.ErrInvalidExpr, pb.GetParameterAnchor())
+			}
 			ret.parameterBindings[i] = DynamicParameterBinding{
-				ParameterAnchor: pb.ParameterAnchor,
-				Value:           expr.LiteralFromProto(pb.Value),
+				ParameterAnchor: pb.GetParameterAnchor(),
+				Value:           value,
 			}
 		}
 	}
@@ -473,7 +477,11 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			}
 			var values []expr.VirtualTableExpressionValue
 			for _, v := range readType.VirtualTable.Values {
-				values = append(values, internal.VirtualTableExprFromLiteralProto(v))
+				row, err := internal.VirtualTableExprFromLiteralProto(v)
+				if err != nil {
+					return nil, err
+				}
+				values = append(values, row)
 			}
 			for _, v := range readType.VirtualTable.Expressions {
 				row, err := internal.VirtualTableExpressionFromProto(v, reg)
-- 
2.43.0


From d134e0a123e2eec1c301707838ad1e886bf3ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 006/118] fix: decode precision timestamps before the epoch

A precision_timestamp literal counts from the epoch and may be negative, but
decoding one returned a nil literal.
---
 expr/literals.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 96a95da..d288f15 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1055,9 +1055,9 @@ func validateLiteralProto(l *proto.Expression_Literal) error {
 	case *proto.Expression_Literal_PrecisionTime_:
 		return validateLiteralPrecision(lit.PrecisionTime.GetPrecision(), lit.PrecisionTime.GetValue())
 	case *proto.Expression_Literal_PrecisionTimestamp_:
-		return validateLiteralPrecision(lit.PrecisionTimestamp.GetPrecision(), lit.PrecisionTimestamp.GetValue())
+		return validateLiteralPrecision(lit.PrecisionTimestamp.GetPrecision(), 0)
 	case *proto.Expression_Literal_PrecisionTimestampTz:
-		return validateLiteralPrecision(lit.PrecisionTimestampTz.GetPrecision(), lit.PrecisionTimestampTz.GetValue())
+		return validateLiteralPrecision(lit.PrecisionTimestampTz.GetPrecision(), 0)
 	case *proto.Expression_Literal_Struct_:
 		for _, f := range lit.Struct.GetFields() {
 			if err := validateLiteralProto(f); err != nil {
@@ -1360,9 +1360,6 @@ func decodeLiteral(l *proto.Expression_Literal) Literal {
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
-		}
 		return NewPrecisionTimestampLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_PrecisionTimestampTz:
 		precTimeStamp := lit.PrecisionTimestampTz
@@ -1370,9 +1367,6 @@ func decodeLiteral(l *proto.Expression_Literal) Literal {
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
-		}
 		return NewPrecisionTimestampTzLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_IntervalYearToMonth_:
 		return intervalYearToMonthLiteralFromProto(l)
-- 
2.43.0


From 3597777dd3f6769047e04f7f5651d62cddef6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 007/118] fix: keep the type variation of decoded time and
 interval literals

precision_time, precision_timestamp(_tz), interval_year and interval_compound
literals lost their type variation reference when decoded.
---
 expr/interval_compound_literal.go |  5 +++--
 expr/interval_year_to_month.go    |  6 +++++-
 expr/literals.go                  | 29 ++++++++++++++++++++++++++---
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index ec9790b..54cfc64 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -17,10 +17,11 @@ type IntervalCompoundLiteral struct {
 	SubSeconds         int64
 	SubSecondPrecision types.TimePrecision
 	Nullability        types.Nullability
+	TypeVariationRef   uint32
 }
 
 func (m IntervalCompoundLiteral) getType() types.Type {
-	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).WithNullability(m.Nullability)
+	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -59,7 +60,7 @@ func (m IntervalCompoundLiteral) ToProto() *proto.Expression {
 }
 
 func intervalCompoundLiteralFromProto(l *proto.Expression_Literal) Literal {
-	icLiteral := IntervalCompoundLiteral{Nullability: getNullability(l.Nullable)}
+	icLiteral := IntervalCompoundLiteral{Nullability: getNullability(l.Nullable), TypeVariationRef: l.TypeVariationReference}
 	yearToMonth := l.GetIntervalCompound().GetIntervalYearToMonth()
 	if yearToMonth != nil {
 		icLiteral.Years = yearToMonth.Years
diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index 8006aa5..1f820a5 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -12,10 +12,12 @@ type IntervalYearToMonthLiteral struct {
 	Years       int32
 	Months      int32
 	Nullability types.Nullability
+
+	TypeVariationRef uint32
 }
 
 func (m IntervalYearToMonthLiteral) getType() types.Type {
-	return types.NewIntervalYearToMonthType().WithNullability(m.Nullability)
+	return types.NewIntervalYearToMonthType().WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalYearToMonthLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -43,6 +45,8 @@ func intervalYearToMonthLiteralFromProto(l *proto.Expression_Literal) Literal {
 		Years:       l.GetIntervalYearToMonth().Years,
 		Months:      l.GetIntervalYearToMonth().Months,
 		Nullability: getNullability(l.Nullable),
+
+		TypeVariationRef: l.TypeVariationReference,
 	}
 }
 
diff --git a/expr/literals.go b/expr/literals.go
index d288f15..0581fd7 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1353,21 +1353,44 @@ func decodeLiteral(l *proto.Expression_Literal) Literal {
 		if precTime.Value < 0 {
 			return nil
 		}
-		return NewPrecisionTimeLiteral(precTime.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTime.Value,
+			Type: &types.PrecisionTimeType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestamp_:
 		precTimeStamp := lit.PrecisionTimestamp
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		return NewPrecisionTimestampLiteral(precTimeStamp.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestampTz:
 		precTimeStamp := lit.PrecisionTimestampTz
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		return NewPrecisionTimestampTzLiteral(precTimeStamp.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampTzType{
+				PrecisionTimestampType: types.PrecisionTimestampType{
+					Precision:        precision,
+					Nullability:      nullability,
+					TypeVariationRef: l.TypeVariationReference,
+				},
+			},
+		}
 	case *proto.Expression_Literal_IntervalYearToMonth_:
 		return intervalYearToMonthLiteralFromProto(l)
 	case *proto.Expression_Literal_IntervalCompound_:
-- 
2.43.0


From 80a99c4425ba38e4b1fd022ed351ca42dfef46ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 008/118] fix: encode the precision of interval_compound
 literals without a day part

The precision is part of the literal's type but was dropped when days, seconds
and subseconds are zero. A negative subseconds value beside the deprecated
microseconds field was silently ignored.
---
 expr/interval_compound_literal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index 54cfc64..658ea79 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -36,7 +36,7 @@ func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
 		intrCompPB.IntervalYearToMonth = yearToMonthProto
 	}
 
-	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 {
+	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 || m.SubSecondPrecision != 0 {
 		dayToSecondProto := &proto.Expression_Literal_IntervalDayToSecond{
 			Days:          m.Days,
 			Seconds:       m.Seconds,
@@ -120,7 +120,7 @@ func validateIntervalDayToSecondProto(idts *proto.Expression_Literal_IntervalDay
 	}
 	if _, ok := idts.PrecisionMode.(*proto.Expression_Literal_IntervalDayToSecond_Microseconds); ok {
 		// if microsecond precision then subseconds must be set to zero
-		if idts.Subseconds > 0 {
+		if idts.Subseconds != 0 {
 			return errors.New("both deprecated microseconds and subseconds can't be non zero")
 		}
 	}
-- 
2.43.0


From cdd22f71290d4914b15a53766007fee5048f5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 009/118] fix: compare protobuf-backed literals by value

Interval and user-defined literals were compared by the in-memory form of their
protobuf message, which changes once a message is encoded or reflected on, and
the two representations of an interval_year literal never compared equal.
---
 expr/interval_year_to_month.go |  6 +++++-
 expr/literals.go               | 25 +++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index 1f820a5..2434489 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -59,8 +59,12 @@ func (m IntervalYearToMonthLiteral) ValueString() string {
 	return fmt.Sprintf("%d years, %d months", m.Years, m.Months)
 }
 func (m IntervalYearToMonthLiteral) Equals(rhs Expression) bool {
-	if other, ok := rhs.(IntervalYearToMonthLiteral); ok {
+	switch other := rhs.(type) {
+	case IntervalYearToMonthLiteral:
 		return m.getType().Equals(other.GetType()) && (m == other)
+	case *ProtoLiteral:
+		v, ok := other.Value.(*types.IntervalYearToMonth)
+		return ok && m.getType().Equals(other.GetType()) && m.Years == v.GetYears() && m.Months == v.GetMonths()
 	}
 	return false
 }
diff --git a/expr/literals.go b/expr/literals.go
index 0581fd7..48158e9 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -18,6 +18,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	pb "google.golang.org/protobuf/proto"
 )
 
 // PrimitiveLiteralValue is a type constraint that represents
@@ -681,13 +682,33 @@ func (t *ProtoLiteral) ToProto() *proto.Expression {
 }
 
 func (t *ProtoLiteral) Equals(rhs Expression) bool {
-	if other, ok := rhs.(*ProtoLiteral); ok {
+	switch other := rhs.(type) {
+	case *ProtoLiteral:
 		return t.Type.Equals(other.Type) &&
-			reflect.DeepEqual(t.Value, other.Value)
+			protoLiteralValuesEqual(t.Value, other.Value)
+	case IntervalYearToMonthLiteral:
+		return other.Equals(t)
 	}
 	return false
 }
 
+// protoLiteralValuesEqual compares values as protobuf messages where they are
+// messages: their in-memory form differs by how they were obtained.
+func protoLiteralValuesEqual(a, b any) bool {
+	switch v := a.(type) {
+	case *proto.Expression_Literal_UserDefined_Value:
+		other, ok := b.(*proto.Expression_Literal_UserDefined_Value)
+		return ok && pb.Equal(v.Value, other.Value)
+	case *proto.Expression_Literal_UserDefined_Struct:
+		other, ok := b.(*proto.Expression_Literal_UserDefined_Struct)
+		return ok && pb.Equal(v.Struct, other.Struct)
+	case pb.Message:
+		other, ok := b.(pb.Message)
+		return ok && pb.Equal(v, other)
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 func (t *ProtoLiteral) ToProtoFuncArg() *proto.FunctionArgument {
 	return &proto.FunctionArgument{
 		ArgType: &proto.FunctionArgument_Value{Value: t.ToProto()},
-- 
2.43.0


From 951919352e8ac76f08156a5c79e092af78a69d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:34 +0000
Subject: [PATCH 010/118] fix: interval_day literals get the precision their
 value has

NewLiteral gave an interval_day value without an explicit precision the type
precision 0, while decoding the same value gives microseconds, and accepted
precisions that do not exist.
---
 expr/literals.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 48158e9..0e6d972 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -918,6 +918,15 @@ type allLiteralTypes interface {
 		*types.PrecisionTime | *types.PrecisionTimestamp | *types.PrecisionTimestampTz
 }
 
+// intervalDayLiteralPrecision is the precision of the type of an interval_day
+// value; one that does not state it is in (deprecated) microseconds.
+func intervalDayLiteralPrecision(v *types.IntervalDayToSecond) (types.TimePrecision, error) {
+	if _, ok := v.PrecisionMode.(*proto.Expression_Literal_IntervalDayToSecond_Precision); !ok {
+		return types.PrecisionMicroSeconds, nil
+	}
+	return types.ProtoToTimePrecision(v.GetPrecision())
+}
+
 func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 	switch v := any(val).(type) {
 	case bool:
@@ -966,11 +975,15 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.IntervalDayToSecond:
+		precision, err := intervalDayLiteralPrecision(v)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{
 			Value: v,
 			Type: &types.IntervalDayType{
 				Nullability: getNullability(nullable),
-				Precision:   types.TimePrecision(v.GetPrecision()),
+				Precision:   precision,
 			},
 		}, nil
 	case *types.Decimal:
@@ -1224,14 +1237,9 @@ func decodeLiteral(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_IntervalDayToSecond_:
-		precision := types.PrecisionMicroSeconds
-		switch lit.IntervalDayToSecond.PrecisionMode.(type) {
-		case *proto.Expression_Literal_IntervalDayToSecond_Precision:
-			var err error
-			precision, err = types.ProtoToTimePrecision(lit.IntervalDayToSecond.GetPrecision())
-			if err != nil {
-				return nil
-			}
+		precision, err := intervalDayLiteralPrecision(lit.IntervalDayToSecond)
+		if err != nil {
+			return nil
 		}
 		return &ProtoLiteral{
 			Value: lit.IntervalDayToSecond,
-- 
2.43.0


From 3f74be0d534ddd22a1e6693b009014e2b95a450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 011/118] fix: reject decimals that are not finite or have an
 extreme exponent

NaN and infinities became the number in their unused coefficient, and exponents
near the int32 limits overflowed the precision check: a wrong scale, or a
computation of 10^2147483647.
---
 expr/decimal_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index 53886a1..bcf72c5 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -43,6 +43,14 @@ func DecimalToBytes(dec *apd.Decimal) ([16]byte, int32, int32, error) {
 		scale     int32
 	)
 
+	if dec.Form != apd.Finite {
+		return result, 0, 0, fmt.Errorf("%s is not a finite number", dec.String())
+	}
+	// far outside the range, where the arithmetic below would overflow
+	if dec.Exponent > 38 || dec.Exponent < -38 {
+		return result, 0, 0, fmt.Errorf("number with exponent %d exceeds maximum precision of 38", dec.Exponent)
+	}
+
 	if dec.Exponent > 0 {
 		precision = int32(apd.NumDigits(&dec.Coeff)) + dec.Exponent
 		scale = 0
-- 
2.43.0


From 47eaf4ce17afe9457fa5995432c661678fb882f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 012/118] fix: DecimalToBytes leaves the given decimal
 unchanged

Scaling the coefficient wrote through storage shared with the caller's number.
---
 expr/decimal_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index bcf72c5..be0e072 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -62,7 +62,8 @@ func DecimalToBytes(dec *apd.Decimal) ([16]byte, int32, int32, error) {
 		return result, precision, scale, fmt.Errorf("number %s exceeds maximum precision of 38 (%d)", dec.String(), precision)
 	}
 
-	coefficient := dec.Coeff
+	// copied through Set: a plain copy shares its storage with the caller's number
+	coefficient := new(apd.BigInt).Set(&dec.Coeff)
 	if dec.Exponent > 0 {
 		// Multiply coefficient by 10^exponent.
 		multiplier := apd.NewBigInt(1).Exp(apd.NewBigInt(10), apd.NewBigInt(int64(dec.Exponent)), nil)
-- 
2.43.0


From d7121522b6a24b8a891b14f272ac015a7dd2e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 013/118] fix: zero converts to a decimal type whose digits are
 all fractional

---
 expr/decimal_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index be0e072..5a512b6 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -197,6 +197,9 @@ func validatePrecisionAndScale(dec *apd.Decimal, targetPrecision int32, targetSc
 }
 
 func getMinimumPrecisionAndScale(dec *apd.Decimal) (precision int32, scale int32) {
+	if dec.IsZero() {
+		return 0, 0
+	}
 	if dec.Exponent > 0 {
 		precision = int32(apd.NumDigits(&dec.Coeff)) + dec.Exponent
 		scale = 0
-- 
2.43.0


From 1dd3441428733abdc7c333de1d59fe3a1ea73910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 014/118] fix: converting a decimal literal gives it the type
 asked for

The type variation and an unspecified nullability were dropped.
---
 expr/literals.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 0e6d972..ea11635 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -724,11 +724,11 @@ func newDecimalWithType(literal *ProtoLiteral, decType *types.DecimalType) (Lite
 		return nil, fmt.Errorf("literal type is not decimal")
 	}
 	inDecimalBytes := [16]byte(literal.Value.([]byte))
-	decimalBytes, precision, scale, err := modifyDecimalPrecisionAndScale(inDecimalBytes, litType.Scale, decType.Precision, decType.Scale)
+	decimalBytes, _, _, err := modifyDecimalPrecisionAndScale(inDecimalBytes, litType.Scale, decType.Precision, decType.Scale)
 	if err != nil {
 		return nil, err
 	}
-	return NewLiteral[*types.Decimal](&types.Decimal{Value: decimalBytes[:16], Precision: precision, Scale: scale}, decType.GetNullability() == types.NullabilityNullable)
+	return &ProtoLiteral{Value: decimalBytes[:16], Type: decType}, nil
 }
 
 func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Literal, error) {
-- 
2.43.0


From 81035b7eba9fcc03e176ab9546dd1c50328f9882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 015/118] fix: NewDecimalFromTwosComplement rejects values
 wider than the precision

---
 literal/utils.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/literal/utils.go b/literal/utils.go
index 01041fe..85b7cb6 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -2,7 +2,9 @@ package literal
 
 import (
 	"fmt"
+	"math/big"
 	"regexp"
+	"slices"
 	"strconv"
 	"time"
 
@@ -310,10 +312,24 @@ func NewDecimalFromTwosComplement(twosComplement []byte, precision, scale int32,
 	if scale < 0 || scale > precision {
 		return nil, fmt.Errorf("scale must be in range [0, precision]")
 	}
+	if n := decimalDigits(twosComplement); n > precision {
+		return nil, fmt.Errorf("value has %d digits, more than precision %d", n, precision)
+	}
 	return expr.NewLiteral(&types.Decimal{Value: twosComplement, Precision: precision, Scale: scale}, nullable)
 
 }
 
+// decimalDigits counts the decimal digits of a little-endian twos-complement integer.
+func decimalDigits(twosComplement []byte) int32 {
+	bigEndian := slices.Clone(twosComplement)
+	slices.Reverse(bigEndian)
+	value := new(big.Int).SetBytes(bigEndian)
+	if bigEndian[0]&0x80 != 0 {
+		value.Sub(value, new(big.Int).Lsh(big.NewInt(1), uint(8*len(bigEndian))))
+	}
+	return int32(len(value.Abs(value).String()))
+}
+
 // NewDecimalFromString create a Decimal literal from decimal value string
 func NewDecimalFromString(value string, nullable bool) (expr.Literal, error) {
 	v, precision, scale, err := expr.DecimalStringToBytes(value)
-- 
2.43.0


From d04ab16180756f16cd5b5b76d99af0f2175dc04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 016/118] fix: time values are rounded down at every precision
 and checked for range

GetTimeValueByPrecision rounded times before the epoch up at some precisions
and down at others, and times beyond the int64 range wrapped silently.
---
 expr/literals.go | 15 +++++++++---
 literal/utils.go | 30 ++++++++++++++++++++----
 types/types.go   | 61 +++++++++++++++++++++++++++++++-----------------
 3 files changed, 76 insertions(+), 30 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index ea11635..8585888 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -743,7 +743,10 @@ func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Li
 
 func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTimeType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimeType); ok {
-		value := types.GetTimeValueByPrecision(types.Time(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptType.Precision)
+		value, err := types.TimeValueByPrecision(types.Time(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision time")
@@ -751,7 +754,10 @@ func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTime
 
 func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.PrecisionTimestampType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptsType.Precision)
+		value, err := types.TimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptsType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptsType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp")
@@ -759,7 +765,10 @@ func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.Precisi
 
 func newPrecisionTimestampTzWithType(literal *ProtoLiteral, ptstzType *types.PrecisionTimestampTzType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampTzType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptstzType.Precision)
+		value, err := types.TimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptstzType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptstzType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp tz")
diff --git a/literal/utils.go b/literal/utils.go
index 85b7cb6..49c983e 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -110,7 +110,11 @@ func parseTimeFromString(value string) (time.Time, error) {
 // NewTimestamp creates a new Timestamp literal from a time.Time timestamp value.
 // This uses the number of microseconds elapsed since January 1, 1970 00:00:00 UTC
 func NewTimestamp(timestamp time.Time, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(types.Timestamp(timestamp.UnixMicro()), nullable)
+	value, err := types.TimeValueByPrecision(timestamp, types.PrecisionMicroSeconds)
+	if err != nil {
+		return nil, err
+	}
+	return expr.NewLiteral(types.Timestamp(value), nullable)
 }
 
 func NewTimestampFromString(value string, nullable bool) (expr.Literal, error) {
@@ -128,7 +132,11 @@ func NewTimestampFromMicros(micros int64, nullable bool) (expr.Literal, error) {
 // NewTimestampTZ creates a new TimestampTz literal from a time.Time timestamp value.
 // This uses the number of microseconds elapsed since January 1, 1970 00:00:00 UTC
 func NewTimestampTZ(timestamp time.Time, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(types.TimestampTz(timestamp.UnixMicro()), nullable)
+	value, err := types.TimeValueByPrecision(timestamp, types.PrecisionMicroSeconds)
+	if err != nil {
+		return nil, err
+	}
+	return expr.NewLiteral(types.TimestampTz(value), nullable)
 }
 
 func NewTimestampTZFromString(value string, nullable bool) (expr.Literal, error) {
@@ -359,7 +367,11 @@ var epochTM = time.Unix(0, 0).UTC()
 func NewPrecisionTimeFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
 	// truncate the date so that we only keep the duration since midnight
 	tm = epochTM.Add(tm.Sub(tm.Truncate(24 * time.Hour)))
-	return NewPrecisionTime(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := types.TimeValueByPrecision(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTime(precision, value, nullable)
 }
 
 func NewPrecisionTimeFromString(precision types.TimePrecision, value string, nullable bool) (expr.Literal, error) {
@@ -372,7 +384,11 @@ func NewPrecisionTimeFromString(precision types.TimePrecision, value string, nul
 
 // NewPrecisionTimestampFromTime creates a new PrecisionTimestamp literal from a time.Time timestamp value with given precision.
 func NewPrecisionTimestampFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
-	return NewPrecisionTimestamp(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := types.TimeValueByPrecision(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTimestamp(precision, value, nullable)
 }
 
 // NewPrecisionTimestamp creates a new PrecisionTimestamp literal with given precision and value.
@@ -395,7 +411,11 @@ func NewPrecisionTimestampFromString(precision types.TimePrecision, value string
 
 // NewPrecisionTimestampTzFromTime creates a new PrecisionTimestampTz literal from a time.Time timestamp value with given precision.
 func NewPrecisionTimestampTzFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
-	return NewPrecisionTimestampTz(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := types.TimeValueByPrecision(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTimestampTz(precision, value, nullable)
 }
 
 // NewPrecisionTimestampTz creates a new PrecisionTimestampTz literal with given precision and value.
diff --git a/types/types.go b/types/types.go
index 309c91b..1073c66 100644
--- a/types/types.go
+++ b/types/types.go
@@ -6,6 +6,7 @@ package types
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -1903,29 +1904,45 @@ func (t TimestampTz) ToIsoTimeString() string {
 	return tm.UTC().Format("2006-01-02T15:04:05.999999999")
 }
 
+// GetTimeValueByPrecision returns the number of units of the given precision
+// between the epoch and tm, rounding down.
+// Use TimeValueByPrecision for times which may not fit.
 func GetTimeValueByPrecision(tm time.Time, precision TimePrecision) int64 {
-	switch precision {
-	case PrecisionSeconds:
-		return tm.Unix()
-	case PrecisionDeciSeconds:
-		return tm.UnixMilli() / 100
-	case PrecisionCentiSeconds:
-		return tm.UnixMilli() / 10
-	case PrecisionMilliSeconds:
-		return tm.UnixMilli()
-	case PrecisionEMinus4Seconds:
-		return tm.UnixMicro() / 100
-	case PrecisionEMinus5Seconds:
-		return tm.UnixMicro() / 10
-	case PrecisionMicroSeconds:
-		return tm.UnixMicro()
-	case PrecisionEMinus7Seconds:
-		return tm.UnixNano() / 100
-	case PrecisionEMinus8Seconds:
-		return tm.UnixNano() / 10
-	case PrecisionNanoSeconds:
-		return tm.UnixNano()
-	default:
+	if precision < PrecisionSeconds || precision > PrecisionNanoSeconds {
 		panic(fmt.Sprintf("unknown TimePrecision %v", precision))
 	}
+	value, _ := timeValueByPrecision(tm, precision)
+	return value
+}
+
+// TimeValueByPrecision is like GetTimeValueByPrecision but returns an error for
+// an unknown precision and for a time which does not fit the value.
+func TimeValueByPrecision(tm time.Time, precision TimePrecision) (int64, error) {
+	if precision < PrecisionSeconds || precision > PrecisionNanoSeconds {
+		return 0, fmt.Errorf("unknown TimePrecision %d", precision)
+	}
+	value, ok := timeValueByPrecision(tm, precision)
+	if !ok {
+		return 0, fmt.Errorf("time %v is out of range for precision %d", tm, precision)
+	}
+	return value, nil
+}
+
+func timeValueByPrecision(tm time.Time, precision TimePrecision) (value int64, ok bool) {
+	unitsPerSecond, nanosPerUnit := int64(1), int64(time.Second)
+	for ; precision > PrecisionSeconds; precision-- {
+		unitsPerSecond *= 10
+		nanosPerUnit /= 10
+	}
+	seconds, units := tm.Unix(), int64(tm.Nanosecond())/nanosPerUnit
+	if seconds < 0 && units > 0 {
+		// count the units back from the next second, the product below may not fit otherwise
+		seconds++
+		units -= unitsPerSecond
+	}
+	whole := seconds * unitsPerSecond
+	ok = whole/unitsPerSecond == seconds &&
+		(units <= 0 || whole <= math.MaxInt64-units) &&
+		(units >= 0 || whole >= math.MinInt64-units)
+	return whole + units, ok
 }
-- 
2.43.0


From 7cc7b2619e2b05e1137ebf7ec327fb8423ad4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 017/118] fix: SubSecondsToDuration does not overflow where the
 duration fits

---
 types/precison_timestamp_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/precison_timestamp_types.go b/types/precison_timestamp_types.go
index ae650bf..cc0f8cc 100644
--- a/types/precison_timestamp_types.go
+++ b/types/precison_timestamp_types.go
@@ -37,9 +37,9 @@ func SubSecondsToDuration(subSeconds int64, precision TimePrecision) time.Durati
 	case PrecisionSeconds:
 		return time.Duration(subSeconds) * time.Second
 	case PrecisionDeciSeconds:
-		return time.Duration(subSeconds) * time.Second / 10
+		return time.Duration(subSeconds) * 100 * time.Millisecond
 	case PrecisionCentiSeconds:
-		return time.Duration(subSeconds) * time.Second / 100
+		return time.Duration(subSeconds) * 10 * time.Millisecond
 	case PrecisionMilliSeconds:
 		return time.Duration(subSeconds) * time.Millisecond
 	case PrecisionEMinus4Seconds:
-- 
2.43.0


From 20801641d8afffd288bb9f3975c16ddd61c8b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 018/118] fix: NewDate and NewTime reject values which overflow

---
 literal/utils.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/literal/utils.go b/literal/utils.go
index 49c983e..4fe140e 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -2,6 +2,7 @@ package literal
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"regexp"
 	"slices"
@@ -50,6 +51,9 @@ func NewString(value string, nullable bool) expr.Literal {
 }
 
 func NewDate(days int, nullable bool) (expr.Literal, error) {
+	if days < math.MinInt32 || days > math.MaxInt32 {
+		return nil, fmt.Errorf("date %d is out of range", days)
+	}
 	return expr.NewLiteral(types.Date(days), nullable)
 }
 
@@ -64,12 +68,12 @@ func NewDateFromString(value string, nullable bool) (expr.Literal, error) {
 // NewTime creates a new Time literal from the given hours, minutes, seconds and microseconds.
 // The total microseconds should be in the range [0, 86400_000_000) to represent a valid time within a day.
 func NewTime(hours, minutes, seconds, microseconds int32, nullable bool) (expr.Literal, error) {
-	duration := time.Duration(hours)*time.Hour + time.Duration(minutes)*time.Minute + time.Duration(seconds)*time.Second + time.Duration(microseconds)*time.Microsecond
-	micros := duration.Microseconds()
+	// in nanoseconds the sum could overflow
+	micros := int64(hours)*time.Hour.Microseconds() + int64(minutes)*time.Minute.Microseconds() + int64(seconds)*time.Second.Microseconds() + int64(microseconds)
 	if micros < 0 || micros >= (24*time.Hour).Microseconds() {
 		return nil, fmt.Errorf("invalid time value %d:%d:%d.%d", hours, minutes, seconds, microseconds)
 	}
-	return expr.NewLiteral(types.Time(duration.Microseconds()), nullable)
+	return expr.NewLiteral(types.Time(micros), nullable)
 }
 
 // NewTimeFromMicros creates a new Time literal from the given microseconds.
-- 
2.43.0


From 8def60cfd110c62b3eff60b28f5458a9bb052ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 019/118] fix: reject malformed and overflowing year intervals

Text after the years was ignored, as in P1Y5, and values beyond 32 bits wrapped.
---
 literal/utils.go | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/literal/utils.go b/literal/utils.go
index 4fe140e..2f23198 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -163,35 +163,23 @@ func NewIntervalYearsToMonthFromString(yearsToMonth string, nullable bool) (expr
 	return NewIntervalYearsToMonth(years, months, nullable)
 }
 
+var intervalYearsToMonthRegexp = regexp.MustCompile(`^P(?:([+-]?\d+)Y)?(?:([+-]?\d+)M)?$`)
+
 func parseIntervalYearsToMonth(interval string) (int32, int32, error) {
-	if len(interval) < 3 || interval[0] != 'P' {
-		return 0, 0, fmt.Errorf("invalid interval format: %s", interval)
-	}
-	interval = interval[1:]
-	yIndex := -1
-	mIndex := -1
-	for i, c := range interval {
-		if c == 'Y' {
-			yIndex = i
-		} else if c == 'M' {
-			mIndex = i
-		}
-	}
-	if yIndex == -1 && mIndex == -1 {
+	matches := intervalYearsToMonthRegexp.FindStringSubmatch(interval)
+	if matches == nil || (matches[1] == "" && matches[2] == "") {
 		return 0, 0, fmt.Errorf("invalid interval format: %s", interval)
 	}
-	var months, years int
+	var years, months int64
 	var err error
-	if yIndex != -1 {
-		years, err = strconv.Atoi(interval[:yIndex])
+	if matches[1] != "" {
+		years, err = strconv.ParseInt(matches[1], 10, 32)
 		if err != nil {
 			return 0, 0, err
 		}
-		interval = interval[yIndex+1:]
-		mIndex -= yIndex + 1
 	}
-	if mIndex > 0 {
-		months, err = strconv.Atoi(interval[:mIndex])
+	if matches[2] != "" {
+		months, err = strconv.ParseInt(matches[2], 10, 32)
 		if err != nil {
 			return 0, 0, err
 		}
-- 
2.43.0


From 0ffdc41c98d33acf799baec08bc4e1797a9b3318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 020/118] fix: day intervals from text are exact

Fractional seconds went through a float and could lose a nanosecond, values
beyond 32 bits wrapped, and empty parts as in P1DT and PTS were accepted.
---
 literal/utils.go | 51 ++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/literal/utils.go b/literal/utils.go
index 2f23198..4d8dc90 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"slices"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/cockroachdb/apd/v3"
@@ -213,56 +214,64 @@ func parseIntervalDaysToSecond(interval string) (int32, int32, int64, int32, err
 
 	// Parse interval of format P[n]DT[n]H[n]M[n]S
 	// Ex: 3DT4H5M6.789S
-	regex := `^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d*(\.\d+)?)S)?)?$`
+	regex := `^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d*)(?:\.(\d+))?S)?)?$`
 	r := regexp.MustCompile(regex)
 
 	// Find matches
 	matches := r.FindStringSubmatch(interval)
-	if matches == nil {
+	if matches == nil || strings.HasSuffix(interval, "T") {
+		return 0, 0, 0, 0, fmt.Errorf("invalid interval format: %s", interval)
+	}
+	if strings.HasSuffix(interval, "S") && matches[4] == "" && matches[5] == "" {
 		return 0, 0, 0, 0, fmt.Errorf("invalid interval format: %s", interval)
 	}
 
 	// Parse each component
 	var err error
-	var days, hours, minutes, seconds int
-	var secFloat float64
-	var subSeconds int64
+	var days, hours, minutes, seconds int64
 	if matches[1] != "" {
-		days, err = strconv.Atoi(matches[1])
+		days, err = strconv.ParseInt(matches[1], 10, 32)
 		if err != nil {
 			return 0, 0, 0, 0, fmt.Errorf("invalid day value: %v", err)
 		}
 	}
 	if matches[2] != "" {
-		hours, err = strconv.Atoi(matches[2])
+		hours, err = strconv.ParseInt(matches[2], 10, 32)
 		if err != nil {
 			return 0, 0, 0, 0, fmt.Errorf("invalid hour value: %v", err)
 		}
 	}
 	if matches[3] != "" {
-		minutes, err = strconv.Atoi(matches[3])
+		minutes, err = strconv.ParseInt(matches[3], 10, 32)
 		if err != nil {
 			return 0, 0, 0, 0, fmt.Errorf("invalid minute value: %v", err)
 		}
 	}
 	if matches[4] != "" {
-		secFloat, err = strconv.ParseFloat(matches[4], 64)
+		seconds, err = strconv.ParseInt(matches[4], 10, 32)
 		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid fractional second value: %v", err)
+			return 0, 0, 0, 0, fmt.Errorf("invalid second value: %v", err)
 		}
 	}
-
-	seconds = int(secFloat)
-	secFloat -= float64(seconds)
 	seconds += hours*3600 + minutes*60
-	nanoSeconds := int64(secFloat * 1e9)
-	subSeconds = int64(secFloat * 1e6)
-	precision := int32(types.PrecisionMicroSeconds)
-	if nanoSeconds > subSeconds*1e3 {
-		subSeconds = nanoSeconds
-		precision = int32(types.PrecisionNanoSeconds)
-	}
-	return int32(days), int32(seconds), subSeconds, precision, nil
+	if seconds > math.MaxInt32 {
+		return 0, 0, 0, 0, fmt.Errorf("interval out of range: %s", interval)
+	}
+
+	precision := types.PrecisionMicroSeconds
+	fraction := strings.TrimRight(matches[5], "0")
+	if len(fraction) > int(types.PrecisionNanoSeconds) {
+		return 0, 0, 0, 0, fmt.Errorf("fractional second is too precise: %s", interval)
+	}
+	if len(fraction) > int(types.PrecisionMicroSeconds) {
+		precision = types.PrecisionNanoSeconds
+	}
+	fraction += strings.Repeat("0", int(precision)-len(fraction))
+	subSeconds, err := strconv.ParseInt(fraction, 10, 64)
+	if err != nil {
+		return 0, 0, 0, 0, fmt.Errorf("invalid fractional second value: %v", err)
+	}
+	return int32(days), int32(seconds), subSeconds, int32(precision), nil
 }
 
 func NewIntervalDaysToSecond(days, seconds int32, micros int64, nullable bool) (expr.Literal, error) {
-- 
2.43.0


From 8cb74fffc69f59f12322a843fcd35b1b6d769f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 021/118] fix: a time of day is not a timestamp

It was taken as a timestamp in the year 0.
---
 literal/utils.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/literal/utils.go b/literal/utils.go
index 4d8dc90..d9568c9 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -95,13 +95,17 @@ func NewTimeFromString(value string, nullable bool) (expr.Literal, error) {
 	return NewTimeFromMicros(micros, nullable)
 }
 
-func parseTimeFromString(value string) (time.Time, error) {
+func parseTimestampFromString(value string) (time.Time, error) {
 	if t, err := time.Parse(time.RFC3339, value); err == nil {
 		return t, nil
 	}
 
 	layoutWithoutOffset := "2006-01-02T15:04:05"
-	if t, err := time.Parse(layoutWithoutOffset, value); err == nil {
+	return time.Parse(layoutWithoutOffset, value)
+}
+
+func parseTimeFromString(value string) (time.Time, error) {
+	if t, err := parseTimestampFromString(value); err == nil {
 		return t, nil
 	}
 	timeOnlyInMicros := "15:04:05.9999999"
@@ -123,7 +127,7 @@ func NewTimestamp(timestamp time.Time, nullable bool) (expr.Literal, error) {
 }
 
 func NewTimestampFromString(value string, nullable bool) (expr.Literal, error) {
-	tm, err := parseTimeFromString(value)
+	tm, err := parseTimestampFromString(value)
 	if err != nil {
 		return nil, err
 	}
@@ -145,7 +149,7 @@ func NewTimestampTZ(timestamp time.Time, nullable bool) (expr.Literal, error) {
 }
 
 func NewTimestampTZFromString(value string, nullable bool) (expr.Literal, error) {
-	tm, err := parseTimeFromString(value)
+	tm, err := parseTimestampFromString(value)
 	if err != nil {
 		return nil, err
 	}
@@ -403,7 +407,7 @@ func NewPrecisionTimestamp(precision types.TimePrecision, value int64, nullable
 }
 
 func NewPrecisionTimestampFromString(precision types.TimePrecision, value string, nullable bool) (expr.Literal, error) {
-	tm, err := parseTimeFromString(value)
+	tm, err := parseTimestampFromString(value)
 	if err != nil {
 		return nil, err
 	}
@@ -430,7 +434,7 @@ func NewPrecisionTimestampTz(precision types.TimePrecision, value int64, nullabl
 }
 
 func NewPrecisionTimestampTzFromString(precision types.TimePrecision, value string, nullable bool) (expr.Literal, error) {
-	tm, err := parseTimeFromString(value)
+	tm, err := parseTimestampFromString(value)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 43e73db8775d19639dfdeb9ac76708147f5eb77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 022/118] fix: ISO form of interval_day literals
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Negative parts were left out, sub-second intervals were printed with Go's ms
and µs units, a zero interval was printed as P, and the deprecated microseconds
field was ignored.
---
 expr/literals.go | 66 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 8585888..dccf7f4 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"math"
+	"math/big"
 	"reflect"
 	"slices"
 	"strings"
@@ -569,20 +570,63 @@ func (t *ProtoLiteral) IsoValueString() string {
 	case *types.IntervalDayType:
 		x, _ := t.Value.(*proto.Expression_Literal_IntervalDayToSecond)
 		// Validity is required by construction.
-		sb := strings.Builder{}
-		sb.WriteString("P")
-		if x.GetDays() > 0 {
-			sb.WriteString(fmt.Sprintf("%dD", x.GetDays()))
-		}
-		if x.GetSeconds() > 0 || x.GetSubseconds() > 0 {
-			sb.WriteString("T")
-			duration := time.Duration(x.GetSeconds()) * time.Second
-			duration += types.SubSecondsToDuration(x.GetSubseconds(), literalType.Precision)
-			sb.WriteString(strings.ToUpper(duration.String()))
+		return isoIntervalDay(x)
+	}
+	return t.ValueString()
+}
+
+// intervalDaySubSeconds returns the sub-seconds of an interval and their precision.
+func intervalDaySubSeconds(v *types.IntervalDayToSecond) (int64, types.TimePrecision) {
+	switch mode := v.GetPrecisionMode().(type) {
+	case *proto.Expression_Literal_IntervalDayToSecond_Precision:
+		return v.GetSubseconds(), types.TimePrecision(mode.Precision)
+	case *proto.Expression_Literal_IntervalDayToSecond_Microseconds:
+		return int64(mode.Microseconds), types.PrecisionMicroSeconds
+	}
+	return v.GetSubseconds(), types.PrecisionMicroSeconds
+}
+
+// isoIntervalDay returns an interval in ISO 8601 format.
+// Components have a sign where the interval is negative.
+func isoIntervalDay(v *types.IntervalDayToSecond) string {
+	// seconds and sub-seconds together may be more than an int64 of nanoseconds
+	subSeconds, precision := intervalDaySubSeconds(v)
+	nanos := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(types.PrecisionNanoSeconds-precision)), nil)
+	nanos.Mul(nanos, big.NewInt(subSeconds))
+	nanos.Add(nanos, new(big.Int).Mul(big.NewInt(int64(v.GetSeconds())), big.NewInt(int64(time.Second))))
+
+	sb := strings.Builder{}
+	sb.WriteString("P")
+	if v.GetDays() != 0 {
+		fmt.Fprintf(&sb, "%dD", v.GetDays())
+	}
+	if nanos.Sign() == 0 {
+		if v.GetDays() == 0 {
+			sb.WriteString("T0S")
 		}
 		return sb.String()
 	}
-	return t.ValueString()
+	sign := ""
+	if nanos.Sign() < 0 {
+		sign = "-"
+		nanos.Neg(nanos)
+	}
+	seconds, fraction := new(big.Int).QuoRem(nanos, big.NewInt(int64(time.Second)), new(big.Int))
+	minutes, seconds := new(big.Int).QuoRem(seconds, big.NewInt(60), new(big.Int))
+	hours, minutes := new(big.Int).QuoRem(minutes, big.NewInt(60), new(big.Int))
+	sb.WriteString("T")
+	if hours.Sign() != 0 {
+		fmt.Fprintf(&sb, "%s%sH", sign, hours)
+	}
+	if hours.Sign() != 0 || minutes.Sign() != 0 {
+		fmt.Fprintf(&sb, "%s%sM", sign, minutes)
+	}
+	fmt.Fprintf(&sb, "%s%s", sign, seconds)
+	if fraction.Sign() != 0 {
+		fmt.Fprintf(&sb, ".%s", strings.TrimRight(fmt.Sprintf("%09d", fraction), "0"))
+	}
+	sb.WriteString("S")
+	return sb.String()
 }
 
 func (*ProtoLiteral) isRootRef()            {}
-- 
2.43.0


From 53d006a970e8cd6ccec77e8b656a8ffcfdaa6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 023/118] fix: converting interval_day literals checks for
 overflow

It also ignored the value of the deprecated microseconds field.
---
 expr/literals.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index dccf7f4..ae00a0e 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -821,15 +821,15 @@ func newPrecisionTimestampTzWithType(literal *ProtoLiteral, ptstzType *types.Pre
 func newIntervalDayWithType(literal *ProtoLiteral, intervalDayType *types.IntervalDayType) (Literal, error) {
 	if _, ok := literal.GetType().(*types.IntervalDayType); ok {
 		intervalValue := literal.Value.(*proto.Expression_Literal_IntervalDayToSecond)
-		precisionDiff := intervalValue.GetPrecision() - intervalDayType.Precision.ToProtoVal()
-		ss := intervalValue.GetSubseconds()
-		if precisionDiff != 0 {
-			factor := int64(math.Pow10(int(math.Abs(float64(precisionDiff)))))
-			if precisionDiff > 0 {
-				ss /= factor
-			} else {
-				ss *= factor
+		ss, precision := intervalDaySubSeconds(intervalValue)
+		for ; precision > intervalDayType.Precision; precision-- {
+			ss /= 10
+		}
+		for ; precision < intervalDayType.Precision; precision++ {
+			if ss > math.MaxInt64/10 || ss < math.MinInt64/10 {
+				return nil, fmt.Errorf("interval is out of range for precision %d", intervalDayType.Precision)
 			}
+			ss *= 10
 		}
 		return &ProtoLiteral{
 			Value: &types.IntervalDayToSecond{
-- 
2.43.0


From 3779a8bfa91d57aba31c745a9b68b5dfe9891e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 024/118] fix: parsing a malformed type expression prints
 nothing to standard output

---
 types/parser/parse.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/types/parser/parse.go b/types/parser/parse.go
index a6418af..38b4571 100644
--- a/types/parser/parse.go
+++ b/types/parser/parse.go
@@ -67,7 +67,6 @@ func parseType(input string, p *baseparser2.SubstraitTypeParser, errorListener *
 	defer util.TransformPanicToError(&err, input, "ParseExpr", errorListener)
 	context := p.StartRule()
 	if errorListener.ErrorCount() > 0 {
-		fmt.Printf("ParseTree: %v", antlr.TreesStringTree(context, []string{}, p))
 		return nil, fmt.Errorf("error parsing input '%s': %s", input, errorListener.GetErrors())
 	}
 	ret := visitor.Visit(context)
-- 
2.43.0


From cdb1d03a364241bed7fc7af0a95d20568c4b9219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 025/118] fix: unknown characters in a type expression are an
 error instead of being dropped

---
 types/parser/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/parser/parse.go b/types/parser/parse.go
index 38b4571..a77c2a7 100644
--- a/types/parser/parse.go
+++ b/types/parser/parse.go
@@ -41,9 +41,10 @@ func (t *TypeExpression) UnmarshalYAML(fn func(interface{}) error) error {
 func ParseType(input string) (types.FuncDefArgType, error) {
 	is := antlr.NewInputStream(input)
 	lexer := baseparser2.NewSubstraitTypeLexer(is)
+	errorListener := util.NewSimpleErrorListener()
+	lexer.AddErrorListener(errorListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser2.NewSubstraitTypeParser(stream)
-	errorListener := util.NewSimpleErrorListener()
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-- 
2.43.0


From 5c2eb53865bbac92298a5f8d7035aa752fe832d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 026/118] fix: numbers of a type expression which do not fit
 are an error instead of wrapping

---
 types/parser/parse.go   | 2 +-
 types/parser/visitor.go | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/types/parser/parse.go b/types/parser/parse.go
index a77c2a7..3be10a1 100644
--- a/types/parser/parse.go
+++ b/types/parser/parse.go
@@ -48,7 +48,7 @@ func ParseType(input string) (types.FuncDefArgType, error) {
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-	visitor := &TypeVisitor{}
+	visitor := &TypeVisitor{ErrorListener: errorListener}
 	ret, err := parseType(input, p, errorListener, visitor)
 	if err != nil {
 		return nil, err
diff --git a/types/parser/visitor.go b/types/parser/visitor.go
index 13c66ae..57e9f9f 100644
--- a/types/parser/visitor.go
+++ b/types/parser/visitor.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -43,10 +44,9 @@ func (v *TypeVisitor) VisitTypeLiteral(ctx *baseparser2.TypeLiteralContext) inte
 }
 
 func (v *TypeVisitor) VisitLiteralNumber(ctx *baseparser2.LiteralNumberContext) interface{} {
-	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 0)
+	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 64)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("error parsing number: %s", err))
-		return 0
 	}
 	return &types.LiteralNumber{Value: num}
 }
@@ -197,6 +197,9 @@ func (v *TypeVisitor) VisitUserDefined(ctx *baseparser2.UserDefinedContext) inte
 		case types.FuncDefArgType:
 			params = append(params, &types.DataTypeUDTParam{Type: param})
 		case *types.LiteralNumber:
+			if param.Value < math.MinInt32 || param.Value > math.MaxInt32 {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("user defined type parameter %d is out of range", param.Value))
+			}
 			params = append(params, &types.IntegerUDTParam{Integer: int32(param.Value)})
 		case types.StringParameter:
 			params = append(params, &types.StringUDTParam{StringVal: string(param)})
@@ -375,7 +378,7 @@ func (v *TypeVisitor) VisitParameterName(ctx *baseparser2.ParameterNameContext)
 }
 
 func (v *TypeVisitor) VisitNumericLiteral(ctx *baseparser2.NumericLiteralContext) interface{} {
-	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 0)
+	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 32)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("error parsing type parameter as number: %s", err))
 		return integer_parameters.NewConcreteIntParam(0)
-- 
2.43.0


From be66f19d91b2574b1e7987f97e4398a863496cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 027/118] fix: any type variables are case insensitive like
 other keywords

---
 types/parser/visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/parser/visitor.go b/types/parser/visitor.go
index 57e9f9f..d91e8ac 100644
--- a/types/parser/visitor.go
+++ b/types/parser/visitor.go
@@ -119,7 +119,8 @@ func (v *TypeVisitor) VisitAnyType(ctx *baseparser2.AnyTypeContext) interface{}
 
 	name := "any"
 	if ctx.AnyVar() != nil {
-		name = ctx.AnyVar().GetText()
+		// keywords are case insensitive
+		name = strings.ToLower(ctx.AnyVar().GetText())
 	}
 	return &types.AnyType{Name: name, Nullability: nullability}
 }
-- 
2.43.0


From 0e3bf16c54a93aeb6d0d16dbedc4bc2fe76cf968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 028/118] fix: a func parameter which is not a type is an error

---
 types/parser/visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types/parser/visitor.go b/types/parser/visitor.go
index d91e8ac..df64f55 100644
--- a/types/parser/visitor.go
+++ b/types/parser/visitor.go
@@ -349,6 +349,8 @@ func (v *TypeVisitor) VisitFunc(ctx *baseparser2.FuncContext) interface{} {
 			paramTypes = p
 		case types.FuncDefArgType:
 			paramTypes = []types.FuncDefArgType{p}
+		default:
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("func parameter is not a type: %T", p))
 		}
 	}
 
-- 
2.43.0


From 08fb39d2b6085ab575835964edc3b56e00687c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 029/118] fix: print nested conditionals of derivations so that
 they read the same

---
 types/type_derivation.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 3799ec1..83996c6 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -151,7 +151,21 @@ func (b BinaryExpr) Evaluate(symbolTable map[string]any) (any, error) {
 }
 
 func (b BinaryExpr) String() string {
-	return fmt.Sprintf("(%s %s %s)", b.Left, b.Op, b.Right)
+	return fmt.Sprintf("(%s %s %s)", operandString(b.Left, true), b.Op, operandString(b.Right, true))
+}
+
+// operandString returns an operand, in parentheses where the text would
+// otherwise read differently because operators bind tighter than the operand.
+func operandString(e Expr, ofBinary bool) string {
+	switch e.(type) {
+	case *IfExpr, IfExpr:
+		return fmt.Sprintf("(%s)", e)
+	case *NotExpr, NotExpr:
+		if ofBinary {
+			return fmt.Sprintf("(%s)", e)
+		}
+	}
+	return e.String()
 }
 
 type IfExpr struct {
@@ -162,10 +176,11 @@ type IfExpr struct {
 }
 
 func (i IfExpr) String() string {
+	condition, then, els := operandString(i.Condition, false), operandString(i.Then, false), operandString(i.Else, false)
 	if i.IsTernary {
-		return fmt.Sprintf("%s ? %s : %s", i.Condition, i.Then, i.Else)
+		return fmt.Sprintf("%s ? %s : %s", condition, then, els)
 	}
-	return fmt.Sprintf("if %s then %s else %s", i.Condition, i.Then, i.Else)
+	return fmt.Sprintf("if %s then %s else %s", condition, then, els)
 }
 
 func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
@@ -184,7 +199,7 @@ type NotExpr struct {
 }
 
 func (n NotExpr) String() string {
-	return fmt.Sprintf("!%s", n.Expr)
+	return fmt.Sprintf("!%s", operandString(n.Expr, false))
 }
 
 func (n NotExpr) Evaluate(symbolTable map[string]any) (any, error) {
-- 
2.43.0


From 267dfbd2aa929178a8aef7e6fb690fc8ea867618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 030/118] fix: print parameterized func types in the syntax
 they are parsed from

---
 types/parameterized_func_type.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/types/parameterized_func_type.go b/types/parameterized_func_type.go
index ce9fe8f..9616126 100644
--- a/types/parameterized_func_type.go
+++ b/types/parameterized_func_type.go
@@ -21,18 +21,24 @@ func (f *ParameterizedFuncType) SetNullability(n Nullability) FuncDefArgType {
 	return f
 }
 
-// String returns the string representation like "func<any1 -> any2>"
+// String returns the string representation like "func<any1 -> any2>" or "func<(any1, any2) -> any3>"
 func (f *ParameterizedFuncType) String() string {
 	var b strings.Builder
 	b.WriteString("func")
 	b.WriteString(strFromNullability(f.Nullability))
 	b.WriteByte('<')
+	if len(f.Parameters) != 1 {
+		b.WriteByte('(')
+	}
 	for i, p := range f.Parameters {
 		if i != 0 {
 			b.WriteString(", ")
 		}
 		b.WriteString(p.String())
 	}
+	if len(f.Parameters) != 1 {
+		b.WriteByte(')')
+	}
 	b.WriteString(" -> ")
 	b.WriteString(f.Return.String())
 	b.WriteByte('>')
-- 
2.43.0


From e469b4aa20866ec94335e6fd96487a3a911f35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 031/118] fix: too few arguments for a variadic function do not
 match instead of panicking

---
 extensions/variants.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index e8cb077..810c3f1 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -166,7 +166,10 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 	if variadicBehavior == nil && len(actualTypes) != len(paramTypeList) {
 		return false, nil
 	} else if variadicBehavior != nil {
-		numNonVariadicArgs := len(paramTypeList) - 1
+		numNonVariadicArgs := max(len(paramTypeList)-1, 0)
+		if len(actualTypes) < numNonVariadicArgs || len(paramTypeList) == 0 && len(actualTypes) > 0 {
+			return false, nil
+		}
 		if !validateVariadicBehaviorForMatch(variadicBehavior, actualTypes[numNonVariadicArgs:]) {
 			return false, nil
 		}
-- 
2.43.0


From 17ca7406357a086ab5d99aabcd41b411518f3a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 032/118] fix: the variadic maximum bounds the occurrences of
 the last parameter, not the argument position

---
 extensions/variants.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 810c3f1..940078c 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -214,9 +214,12 @@ func matchArgumentAtCommon(actualType types.Type, argPos int, nullability Nullab
 	// check if argument out of range
 	if variadicBehavior == nil && argPos >= len(funcDefArgList) {
 		return false, nil
-	} else if variadicBehavior != nil && !variadicBehavior.IsValidArgumentPosition(argPos) {
-		// this argument position can't be more than the max allowed by the variadic behavior
-		return false, nil
+	} else if variadicBehavior != nil && argPos >= len(funcDefArgList) {
+		// the last parameter is the variadic one: count its occurrences up to and including this position
+		numVariadicArgs := argPos - len(funcDefArgList) + 2
+		if len(funcDefArgList) == 0 || (variadicBehavior.Max != 0 && numVariadicArgs > variadicBehavior.Max) {
+			return false, nil
+		}
 	}
 
 	// if argPos is >= len(funcDefArgList) than last funcDefArg type should be considered for type match
-- 
2.43.0


From 6e97040de18414861e57fb78d9c9529511245251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 033/118] fix: consistent variadic arguments are compared from
 the first one on

---
 extensions/variants.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 940078c..c7d0c4e 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -249,8 +249,7 @@ func validateVariadicBehaviorForMatch(variadicBehavior *VariadicBehavior, actual
 	// verify consistency of variadic behavior
 	if variadicBehavior.ParameterConsistency == ConsistentParams {
 		// all concrete types must be equal for all variable arguments
-		firstVariadicArgIdx := max(variadicBehavior.Min-1, 0)
-		for i := firstVariadicArgIdx; i < len(actualTypes)-1; i++ {
+		for i := 0; i < len(actualTypes)-1; i++ {
 			if !actualTypes[i].Equals(actualTypes[i+1].WithNullability(actualTypes[i].GetNullability())) {
 				return false
 			}
-- 
2.43.0


From cdbb4180d48cb8a28f9c44e801301670478f2b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 034/118] fix: parameters inside user-defined types are found
 wherever they stand, without panicking

---
 extensions/variants.go                   | 3 +++
 types/parameterized_user_defined_type.go | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index c7d0c4e..8184bba 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -667,6 +667,9 @@ func getLeafParameterizedParams(abstractTypes interface{}) []string {
 	if leaf, ok := abstractTypes.(integer_parameters.IntegerParameter); ok {
 		return []string{leaf.String()}
 	}
+	if udtParam, ok := abstractTypes.(*types.DataTypeUDTParam); ok {
+		abstractTypes = udtParam.Type
+	}
 	// if it is not a leaf type recurse
 	if pat, ok := abstractTypes.(types.FuncDefArgType); ok {
 		var outLeafParams []string
diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 1c68a20..91aecfc 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -134,8 +134,8 @@ func (m *ParameterizedUserDefinedType) String() string {
 
 func (m *ParameterizedUserDefinedType) HasParameterizedParam() bool {
 	for _, typ := range m.TypeParameters {
-		if param, ok := typ.(*DataTypeUDTParam); ok {
-			return param.Type.HasParameterizedParam()
+		if param, ok := typ.(*DataTypeUDTParam); ok && param.Type.HasParameterizedParam() {
+			return true
 		}
 	}
 	return false
-- 
2.43.0


From a1e2b507d1ec3c997d39e167b438327c592365da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 035/118] fix: integer parameters are bound consistently
 wherever they stand in a signature

---
 extensions/variants.go   |  4 +-
 types/type_derivation.go | 91 +++++++++++++++++++++++++++++++++-------
 2 files changed, 78 insertions(+), 17 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 8184bba..8abd9cb 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -189,8 +189,8 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 			return false, nil
 		}
 	}
-	if HasSyncParams(funcDefArgList) {
-		return types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes), nil
+	if !types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes) {
+		return false, nil
 	}
 
 	if err := ValidateConstrainedAnyTypeConsistency(funcDefArgList, actualTypes, variadicBehavior); err != nil {
diff --git a/types/type_derivation.go b/types/type_derivation.go
index 83996c6..6f0d74a 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -325,25 +325,86 @@ type SymbolInfo struct {
 func buildTypeParametersNameValueMap(funcParameters []FuncDefArgType, argumentTypes []Type) (map[string]any, error) {
 	symbolTable := make(map[string]any)
 	for i, p := range funcParameters {
-		paramNames := p.GetParameterizedParams()
-		if len(paramNames) > 0 {
-			paramValues := argumentTypes[i].GetParameters()
-			if len(paramNames) != len(paramValues) {
-				return nil, fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(paramNames), len(paramValues))
+		if i >= len(argumentTypes) {
+			break // the variadic parameter may have no arguments
+		}
+		if err := bindTypeParameters(p, argumentTypes[i], symbolTable); err != nil {
+			return nil, err
+		}
+	}
+	return symbolTable, nil
+}
+
+// bindTypeParameters binds the integer parameters found anywhere in a function
+// parameter to their values in the argument type.
+func bindTypeParameters(p FuncDefArgType, argType Type, symbolTable map[string]any) error {
+	paramNames := p.GetParameterizedParams()
+	if len(paramNames) == 0 {
+		return nil
+	}
+	paramValues := argType.GetParameters()
+	if children := nestedTypes(p); children != nil {
+		if len(children) != len(paramValues) {
+			return fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(children), len(paramValues))
+		}
+		for j, child := range children {
+			if child == nil {
+				continue
 			}
-			for j, param := range paramNames {
-				if intParam, ok := param.(*integer_parameters.VariableIntParam); ok {
-					name := string(*intParam)
-					if existingValue, ok := symbolTable[name]; ok && existingValue != paramValues[j] {
-						return nil, fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, paramValues[j])
-					}
-					symbolTable[name] = paramValues[j]
-					continue
-				}
+			childType, ok := paramValues[j].(Type)
+			if dataParam, isData := paramValues[j].(*DataTypeParameter); isData {
+				childType, ok = dataParam.Type, true
+			}
+			if !ok {
+				return fmt.Errorf("function parameter %s has a type as parameter %d, but %v was provided", p.String(), j, paramValues[j])
+			}
+			if err := bindTypeParameters(child, childType, symbolTable); err != nil {
+				return err
 			}
 		}
+		return nil
 	}
-	return symbolTable, nil
+	if len(paramNames) != len(paramValues) {
+		return fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(paramNames), len(paramValues))
+	}
+	for j, param := range paramNames {
+		if intParam, ok := param.(*integer_parameters.VariableIntParam); ok {
+			name, value := string(*intParam), paramValues[j]
+			if precision, ok := value.(TimePrecision); ok {
+				value = int64(precision)
+			}
+			if existingValue, ok := symbolTable[name]; ok && existingValue != value {
+				return fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, value)
+			}
+			symbolTable[name] = value
+		}
+	}
+	return nil
+}
+
+// nestedTypes returns the types a parameter is made of, in the order of the
+// parameters of the concrete types it matches. Entries which are not types are nil.
+// The result is nil if the parameter is not a nested type.
+func nestedTypes(p FuncDefArgType) []FuncDefArgType {
+	switch p := p.(type) {
+	case *ParameterizedListType:
+		return []FuncDefArgType{p.Type}
+	case *ParameterizedMapType:
+		return []FuncDefArgType{p.Key, p.Value}
+	case *ParameterizedStructType:
+		return p.Types
+	case *ParameterizedFuncType:
+		return append(p.Parameters[:len(p.Parameters):len(p.Parameters)], p.Return)
+	case *ParameterizedUserDefinedType:
+		nested := make([]FuncDefArgType, len(p.TypeParameters))
+		for i, param := range p.TypeParameters {
+			if dataParam, ok := param.(*DataTypeUDTParam); ok {
+				nested[i] = dataParam.Type
+			}
+		}
+		return nested
+	}
+	return nil
 }
 
 func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
-- 
2.43.0


From 1d3b92da26349e0b0b524b4a082b805fa2f56699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 036/118] fix: type variables inside func and user-defined
 types are bound consistently

---
 extensions/variants.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/extensions/variants.go b/extensions/variants.go
index 8abd9cb..edc3b78 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -740,6 +740,28 @@ func validateAnyTypeBinding(paramType types.FuncDefArgType, argType types.Type,
 				}
 			}
 		}
+	case *types.ParameterizedFuncType:
+		if funcType, ok := argType.(*types.FuncType); ok && len(funcType.ParameterTypes) == len(p.Parameters) {
+			for i, parameterType := range funcType.ParameterTypes {
+				if err := validateAnyTypeBinding(p.Parameters[i], parameterType, bindings); err != nil {
+					return err
+				}
+			}
+			return validateAnyTypeBinding(p.Return, funcType.ReturnType, bindings)
+		}
+	case *types.ParameterizedUserDefinedType:
+		if udt, ok := argType.(*types.UserDefinedType); ok && len(udt.TypeParameters) == len(p.TypeParameters) {
+			for i, param := range p.TypeParameters {
+				paramType, isType := param.(*types.DataTypeUDTParam)
+				actualType, isActualType := udt.TypeParameters[i].(*types.DataTypeParameter)
+				if !isType || !isActualType {
+					continue
+				}
+				if err := validateAnyTypeBinding(paramType.Type, actualType.Type, bindings); err != nil {
+					return err
+				}
+			}
+		}
 	case *types.ParameterizedStructType:
 		if structType, ok := argType.(*types.StructType); ok {
 			params := structType.GetParameters()
-- 
2.43.0


From 741cad4c8b7a6ec90677c06e0923a2a31f5a925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 037/118] fix: integer parameters of user-defined types are
 compared without truncation

---
 types/parameterized_user_defined_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 91aecfc..637744c 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -69,7 +69,7 @@ func (i *IntegerUDTParam) toTypeParam() (TypeParam, error) {
 
 func (i *IntegerUDTParam) MatchWithoutNullability(param TypeParam) bool {
 	if intParam, ok := param.(IntegerParameter); ok {
-		return i.Integer == int32(intParam)
+		return IntegerParameter(i.Integer) == intParam
 	}
 	return false
 }
-- 
2.43.0


From bb4d7eb71a2bfda5c30dc62119e2b063831dfcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 038/118] fix: evaluating a type derivation reports type
 errors, overflow and division by zero

---
 types/type_derivation.go | 116 +++++++++++++++++++++++++++++----------
 1 file changed, 86 insertions(+), 30 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 6f0d74a..b4a54b6 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/substrait-io/substrait-go/v8/types/integer_parameters"
@@ -112,44 +113,90 @@ type BinaryExpr struct {
 }
 
 func (b BinaryExpr) Evaluate(symbolTable map[string]any) (any, error) {
-	left, err := b.Left.Evaluate(symbolTable)
+	if b.Op == And || b.Op == Or {
+		left, err := evaluateAs[bool](b.Left, symbolTable)
+		if err != nil {
+			return nil, err
+		}
+		right, err := evaluateAs[bool](b.Right, symbolTable)
+		if err != nil {
+			return nil, err
+		}
+		if b.Op == And {
+			return left && right, nil
+		}
+		return left || right, nil
+	}
+
+	left, err := evaluateAs[int64](b.Left, symbolTable)
 	if err != nil {
 		return nil, err
 	}
-	right, err := b.Right.Evaluate(symbolTable)
+	right, err := evaluateAs[int64](b.Right, symbolTable)
 	if err != nil {
 		return nil, err
 	}
+	overflow := func() (any, error) {
+		return nil, fmt.Errorf("integer overflow evaluating %d %s %d", left, b.Op, right)
+	}
 	switch b.Op {
 	case Plus:
-		return left.(int64) + right.(int64), nil
+		sum := left + right
+		if (sum > left) != (right > 0) {
+			return overflow()
+		}
+		return sum, nil
 	case Minus:
-		return left.(int64) - right.(int64), nil
+		difference := left - right
+		if (difference < left) != (right > 0) {
+			return overflow()
+		}
+		return difference, nil
 	case Multiply:
-		return left.(int64) * right.(int64), nil
+		product := left * right
+		if left != 0 && (product/left != right || (left == -1 && right == math.MinInt64)) {
+			return overflow()
+		}
+		return product, nil
 	case Divide:
-		return left.(int64) / right.(int64), nil
+		if right == 0 {
+			return nil, fmt.Errorf("division by zero evaluating %s", b)
+		}
+		if left == math.MinInt64 && right == -1 {
+			return overflow()
+		}
+		return left / right, nil
 	case LT:
-		return left.(int64) < right.(int64), nil
+		return left < right, nil
 	case LTE:
-		return left.(int64) <= right.(int64), nil
+		return left <= right, nil
 	case GT:
-		return left.(int64) > right.(int64), nil
+		return left > right, nil
 	case GTE:
-		return left.(int64) >= right.(int64), nil
+		return left >= right, nil
 	case EQ:
-		return left.(int64) == right.(int64), nil
+		return left == right, nil
 	case NEQ:
-		return left.(int64) != right.(int64), nil
-	case And:
-		return left.(bool) && right.(bool), nil
-	case Or:
-		return left.(bool) || right.(bool), nil
+		return left != right, nil
 	default:
 		panic("Invalid binary operator")
 	}
 }
 
+// evaluateAs evaluates an expression which must have a value of type T.
+func evaluateAs[T int64 | bool](e Expr, symbolTable map[string]any) (T, error) {
+	var zero T
+	result, err := e.Evaluate(symbolTable)
+	if err != nil {
+		return zero, err
+	}
+	value, ok := result.(T)
+	if !ok {
+		return zero, fmt.Errorf("expected %s to be of type %T, but its value is %v", e, zero, result)
+	}
+	return value, nil
+}
+
 func (b BinaryExpr) String() string {
 	return fmt.Sprintf("(%s %s %s)", operandString(b.Left, true), b.Op, operandString(b.Right, true))
 }
@@ -184,11 +231,11 @@ func (i IfExpr) String() string {
 }
 
 func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
-	condition, err := i.Condition.Evaluate(symbolTable)
+	condition, err := evaluateAs[bool](i.Condition, symbolTable)
 	if err != nil {
 		return nil, err
 	}
-	if condition.(bool) {
+	if condition {
 		return i.Then.Evaluate(symbolTable)
 	}
 	return i.Else.Evaluate(symbolTable)
@@ -203,11 +250,11 @@ func (n NotExpr) String() string {
 }
 
 func (n NotExpr) Evaluate(symbolTable map[string]any) (any, error) {
-	result, err := n.Expr.Evaluate(symbolTable)
+	result, err := evaluateAs[bool](n.Expr, symbolTable)
 	if err != nil {
 		return nil, err
 	}
-	return !result.(bool), nil
+	return !result, nil
 }
 
 type FunctionCallExpr struct {
@@ -230,26 +277,35 @@ func (f FunctionCallExpr) String() string {
 }
 
 func (f FunctionCallExpr) Evaluate(symbolTable map[string]any) (any, error) {
-	args := make([]any, len(f.Args))
+	numArgs := 2
+	switch f.Name {
+	case "abs":
+		numArgs = 1
+	case "max", "min":
+	default:
+		return nil, fmt.Errorf("unknown function %s", f.Name)
+	}
+	if len(f.Args) != numArgs {
+		return nil, fmt.Errorf("function %s takes %d arguments, but %d were provided", f.Name, numArgs, len(f.Args))
+	}
+	args := make([]int64, len(f.Args))
 	for i, arg := range f.Args {
-		result, err := arg.Evaluate(symbolTable)
+		result, err := evaluateAs[int64](arg, symbolTable)
 		if err != nil {
 			return nil, err
 		}
 		args[i] = result
 	}
 	switch f.Name {
-	case "abs":
-		if args[0].(int64) < 0 {
-			return -args[0].(int64), nil
-		}
-		return args[0].(int64), nil
 	case "max":
-		return max(args[0].(int64), args[1].(int64)), nil
+		return max(args[0], args[1]), nil
 	case "min":
-		return min(args[0].(int64), args[1].(int64)), nil
+		return min(args[0], args[1]), nil
 	default:
-		return nil, fmt.Errorf("unknown function %s", f.Name)
+		if args[0] == math.MinInt64 {
+			return nil, fmt.Errorf("integer overflow evaluating abs(%d)", args[0])
+		}
+		return max(args[0], -args[0]), nil
 	}
 }
 
-- 
2.43.0


From 312d190bf3849ef893af6cb97f0f6bf9bcee98ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 039/118] fix: type derivations resolve nested return types

---
 types/type_derivation.go | 51 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index b4a54b6..5ebae21 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -478,8 +478,53 @@ func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentT
 		}
 	}
 
-	// make slice of parameters for final type
-	parametrizedParams := m.FinalType.GetParameterizedParams()
+	return resolveDerivedType(m.FinalType, symbolTable, funcParameters, argumentTypes)
+}
+
+// resolveDerivedType returns the concrete type for the final type of a derivation
+// or for a type nested in it.
+func resolveDerivedType(t FuncDefArgType, symbolTable map[string]any, funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
+	children := nestedTypes(t)
+	resolved := make([]Type, len(children))
+	for i, child := range children {
+		if child == nil {
+			continue
+		}
+		var err error
+		if resolved[i], err = resolveDerivedType(child, symbolTable, funcParameters, argumentTypes); err != nil {
+			return nil, err
+		}
+	}
+	switch t := t.(type) {
+	case *ParameterizedListType:
+		return &ListType{Nullability: t.Nullability, Type: resolved[0]}, nil
+	case *ParameterizedMapType:
+		return &MapType{Nullability: t.Nullability, Key: resolved[0], Value: resolved[1]}, nil
+	case *ParameterizedStructType:
+		return &StructType{Nullability: t.Nullability, Types: resolved}, nil
+	case *ParameterizedFuncType:
+		last := len(resolved) - 1
+		return &FuncType{Nullability: t.Nullability, ParameterTypes: resolved[:last], ReturnType: resolved[last]}, nil
+	case *ParameterizedUserDefinedType:
+		typeParams := make([]TypeParam, len(t.TypeParameters))
+		for i, param := range t.TypeParameters {
+			if resolved[i] != nil {
+				typeParams[i] = &DataTypeParameter{Type: resolved[i]}
+				continue
+			}
+			var err error
+			if typeParams[i], err = param.toTypeParam(); err != nil {
+				return nil, err
+			}
+		}
+		return &UserDefinedType{Nullability: t.Nullability, TypeParameters: typeParams}, nil
+	}
+	if !t.HasParameterizedParam() {
+		return t.ReturnType(funcParameters, argumentTypes)
+	}
+
+	// make slice of parameters for the type
+	parametrizedParams := t.GetParameterizedParams()
 	params := make([]interface{}, 0, len(parametrizedParams))
 	for _, p := range parametrizedParams {
 		switch param := p.(type) {
@@ -496,7 +541,7 @@ func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentT
 		}
 	}
 
-	return m.FinalType.WithParameters(params)
+	return t.WithParameters(params)
 }
 
 func (m *OutputDerivation) WithParameters([]interface{}) (Type, error) {
-- 
2.43.0


From e024ce5d0c1f5ba139ee80328100b8083462f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 040/118] fix: integer parameters of return types are not
 truncated

---
 types/parameterized_decimal_type.go              | 3 +++
 types/parameterized_single_integer_param_type.go | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/types/parameterized_decimal_type.go b/types/parameterized_decimal_type.go
index a579e54..b61972f 100644
--- a/types/parameterized_decimal_type.go
+++ b/types/parameterized_decimal_type.go
@@ -89,6 +89,9 @@ func (m *ParameterizedDecimalType) WithParameters(params []interface{}) (Type, e
 	}
 	if precision, ok := params[0].(int64); ok {
 		if scale, ok := params[1].(int64); ok {
+			if int64(int32(precision)) != precision || int64(int32(scale)) != scale {
+				return nil, fmt.Errorf("decimal parameters %d, %d out of range", precision, scale)
+			}
 			return &DecimalType{Nullability: m.Nullability, Precision: int32(precision), Scale: int32(scale)}, nil
 		}
 		return nil, fmt.Errorf("scale must be an integer")
diff --git a/types/parameterized_single_integer_param_type.go b/types/parameterized_single_integer_param_type.go
index 6b2c4bc..34b3229 100644
--- a/types/parameterized_single_integer_param_type.go
+++ b/types/parameterized_single_integer_param_type.go
@@ -114,9 +114,12 @@ func (m *parameterizedTypeSingleIntegerParam[T]) WithParameters(params []interfa
 		}
 		return nil, fmt.Errorf("type must have 1 parameter")
 	}
-	switch params[0].(type) {
+	switch param := params[0].(type) {
 	case int64:
-		return m.getNewInstance().GetReturnType(int32(params[0].(int64)), m.Nullability), nil
+		if int64(int32(param)) != param {
+			return nil, fmt.Errorf("integer parameter %d out of range", param)
+		}
+		return m.getNewInstance().GetReturnType(int32(param), m.Nullability), nil
 	case int32:
 		return m.getNewInstance().GetReturnType(params[0].(int32), m.Nullability), nil
 	case TimePrecision:
-- 
2.43.0


From f2b2536574f468afe5790d184d489fc662380bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 041/118] fix: any types inside user-defined types are found
 when resolving a return type

---
 types/any_type.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/types/any_type.go b/types/any_type.go
index 4b065b7..0041428 100644
--- a/types/any_type.go
+++ b/types/any_type.go
@@ -99,7 +99,7 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 	case *ParameterizedFuncType:
 		// FuncType.GetParameters() returns [paramTypes..., returnType]
 		// ParameterizedFuncType has Parameters (inputs) + Return (output), so append here
-		allDefTypes := append(arg.Parameters, arg.Return)
+		allDefTypes := nestedTypes(arg)
 		argParams := argType.GetParameters()
 		if len(argParams) != len(allDefTypes) || slices.Contains(argParams, nil) {
 			return nil, fmt.Errorf("expected FuncType to have %d non-nil parameters, found %v",
@@ -114,6 +114,26 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 				return pt, nil
 			}
 		}
+	case *ParameterizedUserDefinedType:
+		allDefTypes := nestedTypes(arg)
+		argParams := argType.GetParameters()
+		if len(argParams) != len(allDefTypes) {
+			return nil, fmt.Errorf("expected UserDefinedType to have %d parameters, found %v",
+				len(allDefTypes), argParams)
+		}
+		for i, param := range argParams {
+			dataParam, ok := param.(*DataTypeParameter)
+			if !ok || allDefTypes[i] == nil {
+				continue
+			}
+			pt, err := unwrapAnyTypeWithName(name, allDefTypes[i], dataParam.Type)
+			if err != nil {
+				return nil, err
+			}
+			if pt != nil {
+				return pt, nil
+			}
+		}
 	}
 	// Didn't find matching AnyType.
 	return nil, nil
-- 
2.43.0


From 4d1e670fd303f51142796da530eac0614ffda10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 042/118] fix: resolving a return type with an enum for a value
 argument is an error

---
 extensions/variants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index edc3b78..c9cc762 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -53,7 +53,7 @@ func validateType(funcParameter FuncParameter, actual types.Type, idx int, nullH
 				substraitgo.ErrInvalidType, idx, p.Name)
 		}
 	case ValueArg:
-		if actual == nil {
+		if actual == nil || actual == types.CommonEnumType {
 			return allNonNull, fmt.Errorf("%w: arg #%d should be of type %s",
 				substraitgo.ErrInvalidType, idx, p.toTypeString())
 		}
-- 
2.43.0


From 119d3ff8bc47f14d5c6e16422de5354e4f6e07af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 043/118] fix: nullable variadic arguments make the mirrored
 return type nullable

---
 extensions/variants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index c9cc762..0c02a8f 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -111,8 +111,8 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		allNonNull = allNonNull && nonNull
 	}
 
-	// validate variadic argument consistency
-	if variadic != nil && len(argumentTypes) > len(funcParameters) && variadic.ParameterConsistency == ConsistentParams {
+	// validate variadic arguments
+	if variadic != nil && len(argumentTypes) > len(funcParameters) && len(funcParameters) > 0 {
 		nparams := len(funcParameters)
 		lastParam := funcParameters[nparams-1]
 		for i, actual := range argumentTypes[nparams:] {
-- 
2.43.0


From 4d9858e54cedd950029bb044c118d2bdc80758d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 044/118] fix: user-defined types anywhere in a return type get
 their type reference

---
 extensions/variants.go | 54 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 0c02a8f..7ed5661 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -142,15 +142,11 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		return nil, err
 	}
 
-	// If the return type expression is a ParameterizedUserDefinedType, we need to
+	// For each ParameterizedUserDefinedType of the return type expression, we need to
 	// fill in the TypeReference since ParameterizedUserDefinedType.ReturnType()
 	// doesn't have access to the registry to set it itself.
 	// For other types like AnyType, the TypeReference is already correctly set.
-	if udt, ok := outType.(*types.UserDefinedType); ok {
-		if paramUDT, ok := returnTypeExpr.(*types.ParameterizedUserDefinedType); ok {
-			udt.TypeReference = registry.GetTypeAnchor(TypeID{Name: paramUDT.Name, URN: urn})
-		}
-	}
+	setTypeReferences(urn, returnTypeExpr, outType, registry)
 
 	if nullHandling == MirrorNullability || nullHandling == "" {
 		if allNonNull {
@@ -162,6 +158,52 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 	return outType, nil
 }
 
+// setTypeReferences sets the TypeReference of the user defined types named in a
+// return type expression in the type it resolved to.
+func setTypeReferences(urn string, expr types.FuncDefArgType, resolved types.Type, registry Set) {
+	switch expr := expr.(type) {
+	case *types.OutputDerivation:
+		setTypeReferences(urn, expr.FinalType, resolved, registry)
+	case *types.ParameterizedListType:
+		if list, ok := resolved.(*types.ListType); ok {
+			setTypeReferences(urn, expr.Type, list.Type, registry)
+		}
+	case *types.ParameterizedMapType:
+		if m, ok := resolved.(*types.MapType); ok {
+			setTypeReferences(urn, expr.Key, m.Key, registry)
+			setTypeReferences(urn, expr.Value, m.Value, registry)
+		}
+	case *types.ParameterizedStructType:
+		if st, ok := resolved.(*types.StructType); ok {
+			for i, field := range expr.Types {
+				setTypeReferences(urn, field, st.Types[i], registry)
+			}
+		}
+	case *types.ParameterizedFuncType:
+		if fn, ok := resolved.(*types.FuncType); ok {
+			for i, param := range expr.Parameters {
+				setTypeReferences(urn, param, fn.ParameterTypes[i], registry)
+			}
+			setTypeReferences(urn, expr.Return, fn.ReturnType, registry)
+		}
+	case *types.ParameterizedUserDefinedType:
+		udt, ok := resolved.(*types.UserDefinedType)
+		if !ok {
+			return
+		}
+		udt.TypeReference = registry.GetTypeAnchor(TypeID{Name: expr.Name, URN: urn})
+		for i, param := range expr.TypeParameters {
+			dataParam, ok := param.(*types.DataTypeUDTParam)
+			if !ok {
+				continue
+			}
+			if resolvedParam, ok := udt.TypeParameters[i].(*types.DataTypeParameter); ok {
+				setTypeReferences(urn, dataParam.Type, resolvedParam.Type, registry)
+			}
+		}
+	}
+}
+
 func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameterList, variadicBehavior *VariadicBehavior, actualTypes []types.Type) (bool, error) {
 	if variadicBehavior == nil && len(actualTypes) != len(paramTypeList) {
 		return false, nil
-- 
2.43.0


From c5936ff407be96b74a58a1a9cd0b3fbab7cc23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:35 +0000
Subject: [PATCH 045/118] fix: new extension anchors do not collide with those
 of a decoded set

---
 extensions/extension_mgr.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 7eaa25a..5412fae 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -515,7 +515,7 @@ func (e *set) GetTypeAnchor(id TypeID) uint32 {
 		if err != nil {
 			panic(err)
 		}
-		a = uint32(len(e.types)) + 1
+		a = unusedAnchor(e.typesMap)
 		e.encodeType(a, id)
 	}
 	return a
@@ -528,7 +528,7 @@ func (e *set) GetFuncAnchor(id FunctionID) uint32 {
 		if err != nil {
 			panic(err)
 		}
-		a = uint32(len(e.funcs)) + 1
+		a = unusedAnchor(e.funcMap)
 		e.encodeFunc(a, id)
 	}
 	return a
@@ -544,7 +544,7 @@ func (e *set) GetTypeVariationAnchor(id TypeVariationID) uint32 {
 		// add 1 to the length to avoid an anchor of 0
 		// so that it's easier to tell when there is no
 		// type variation.
-		a = uint32(len(e.typeVariations)) + 1
+		a = unusedAnchor(e.typeVariationMap)
 		e.encodeTypeVariation(a, id)
 	}
 	return a
@@ -580,13 +580,21 @@ func (e *set) addOrGetURN(urn string) (uint32, error) {
 			return k, nil
 		}
 	}
-	sz := uint32(len(e.urns)) + 1
-	if _, ok := e.urns[sz]; ok {
-		return 0, fmt.Errorf("%w: URN anchor %d already exists", substraitgo.ErrKeyExists, sz)
-	}
+	anchor := unusedAnchor(e.urns)
+	e.urns[anchor] = urn
+	return anchor, nil
+}
 
-	e.urns[sz] = urn
-	return sz, nil
+// unusedAnchor returns an anchor other than 0 which is not in use. Anchors
+// of a decoded set may have gaps.
+func unusedAnchor[T any](used map[uint32]T) uint32 {
+	anchor := uint32(len(used)) + 1
+	for {
+		if _, ok := used[anchor]; !ok && anchor != 0 {
+			return anchor
+		}
+		anchor++
+	}
 }
 
 type TopLevel interface {
-- 
2.43.0


From e42ccd9f31aa18f59ae84a1e660f50ae812ea61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 046/118] fix: extension declarations are encoded in a
 deterministic order

---
 extensions/extension_mgr.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 5412fae..7ef446f 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -380,7 +380,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	urns := make([]*extensions.SimpleExtensionURN, 0, len(e.urns))
 	for anchor, urn := range e.urns {
-		urnBackRef[urn] = anchor
+		urnBackRef[urn], _ = e.FindURN(urn)
 		urns = append(urns, &extensions.SimpleExtensionURN{
 			ExtensionUrnAnchor: anchor,
 			Urn:                urn,
@@ -420,9 +420,9 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 		})
 	}
 
-	typeDecls := decls[typesCount:]
-	sort.Slice(typeDecls, func(i, j int) bool {
-		return decls[i].GetExtensionTypeVariation().TypeVariationAnchor < decls[j].GetExtensionTypeVariation().TypeVariationAnchor
+	typeVarDecls := decls[typesCount:]
+	sort.Slice(typeVarDecls, func(i, j int) bool {
+		return typeVarDecls[i].GetExtensionTypeVariation().TypeVariationAnchor < typeVarDecls[j].GetExtensionTypeVariation().TypeVariationAnchor
 	})
 
 	typeVarCount := len(decls)
@@ -438,9 +438,9 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 		})
 	}
 
-	typeVarDecls := decls[typeVarCount:]
-	sort.Slice(typeVarDecls, func(i, j int) bool {
-		return decls[i].GetExtensionFunction().GetFunctionAnchor() < decls[j].GetExtensionFunction().GetFunctionAnchor()
+	funcDecls := decls[typeVarCount:]
+	sort.Slice(funcDecls, func(i, j int) bool {
+		return funcDecls[i].GetExtensionFunction().GetFunctionAnchor() < funcDecls[j].GetExtensionFunction().GetFunctionAnchor()
 	})
 
 	return urns, decls
@@ -566,19 +566,19 @@ func (e *set) encodeFunc(anchor uint32, id FunctionID) {
 }
 
 func (e *set) FindURN(urn string) (uint32, bool) {
+	anchor, found := uint32(0), false
 	for k, v := range e.urns {
-		if v == urn {
-			return k, true
+		// a decoded set may have several anchors for a URN
+		if v == urn && (!found || k < anchor) {
+			anchor, found = k, true
 		}
 	}
-	return 0, false
+	return anchor, found
 }
 
 func (e *set) addOrGetURN(urn string) (uint32, error) {
-	for k, v := range e.urns {
-		if v == urn {
-			return k, nil
-		}
+	if anchor, ok := e.FindURN(urn); ok {
+		return anchor, nil
 	}
 	anchor := unusedAnchor(e.urns)
 	e.urns[anchor] = urn
-- 
2.43.0


From 8950e47b6e9b76a850e2ae76d184e7aee0f0b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 047/118] fix: a function, type or type variation declared
 under several anchors keeps them all

---
 extensions/extension_mgr.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 7ef446f..bd0fd02 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -390,8 +390,8 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 	// Sort URN extensions by the anchor for consistent output
 	sort.Slice(urns, func(i, j int) bool { return urns[i].ExtensionUrnAnchor < urns[j].ExtensionUrnAnchor })
 
-	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.types)+len(e.typeVariations)+len(e.funcs))
-	for id, anchor := range e.types {
+	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.typesMap)+len(e.typeVariationMap)+len(e.funcMap))
+	for anchor, id := range e.typesMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionType_{
 				ExtensionType: &extensions.SimpleExtensionDeclaration_ExtensionType{
@@ -408,7 +408,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 	})
 	typesCount := len(decls)
 
-	for id, anchor := range e.typeVariations {
+	for anchor, id := range e.typeVariationMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionTypeVariation_{
 				ExtensionTypeVariation: &extensions.SimpleExtensionDeclaration_ExtensionTypeVariation{
@@ -426,7 +426,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 	})
 
 	typeVarCount := len(decls)
-	for id, anchor := range e.funcs {
+	for anchor, id := range e.funcMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionFunction_{
 				ExtensionFunction: &extensions.SimpleExtensionDeclaration_ExtensionFunction{
@@ -551,18 +551,24 @@ func (e *set) GetTypeVariationAnchor(id TypeVariationID) uint32 {
 }
 
 func (e *set) encodeType(anchor uint32, id TypeID) {
-	e.typesMap[anchor] = id
-	e.types[id] = anchor
+	encodeAnchor(e.typesMap, e.types, anchor, id)
 }
 
 func (e *set) encodeTypeVariation(anchor uint32, id TypeVariationID) {
-	e.typeVariationMap[anchor] = id
-	e.typeVariations[id] = anchor
+	encodeAnchor(e.typeVariationMap, e.typeVariations, anchor, id)
 }
 
 func (e *set) encodeFunc(anchor uint32, id FunctionID) {
-	e.funcMap[anchor] = id
-	e.funcs[id] = anchor
+	encodeAnchor(e.funcMap, e.funcs, anchor, id)
+}
+
+// encodeAnchor records an anchor. If the same ID is declared with several
+// anchors, all of them resolve to it and the lowest is the one handed out.
+func encodeAnchor[T comparable](ids map[uint32]T, anchors map[T]uint32, anchor uint32, id T) {
+	ids[anchor] = id
+	if other, ok := anchors[id]; !ok || anchor < other {
+		anchors[id] = anchor
+	}
 }
 
 func (e *set) FindURN(urn string) (uint32, bool) {
-- 
2.43.0


From 5311efad71475334475f9901e306d2d0079b4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:00 +0000
Subject: [PATCH 048/118] fix: conflicting declarations of an extension anchor
 are an error

---
 extensions/extension_mgr.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index bd0fd02..016901c 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -611,6 +611,9 @@ type TopLevel interface {
 func GetExtensionSet(plan TopLevel, c *Collection) (Set, error) {
 	urns := make(map[uint32]string)
 	for _, urn := range plan.GetExtensionUrns() {
+		if other, ok := urns[urn.ExtensionUrnAnchor]; ok && other != urn.Urn {
+			return nil, fmt.Errorf("%w: URN anchor %d is declared for both %q and %q", substraitgo.ErrKeyExists, urn.ExtensionUrnAnchor, other, urn.Urn)
+		}
 		urns[urn.ExtensionUrnAnchor] = urn.Urn
 	}
 
@@ -644,30 +647,33 @@ func GetExtensionSet(plan TopLevel, c *Collection) (Set, error) {
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeTypeVariation(etv.TypeVariationAnchor, TypeVariationID{
-				URN:  urn,
-				Name: etv.Name,
-			})
+			id := TypeVariationID{URN: urn, Name: etv.Name}
+			if other, ok := ret.typeVariationMap[etv.TypeVariationAnchor]; ok && other != id {
+				return nil, fmt.Errorf("%w: type variation anchor %d is declared for both %v and %v", substraitgo.ErrKeyExists, etv.TypeVariationAnchor, other, id)
+			}
+			ret.encodeTypeVariation(etv.TypeVariationAnchor, id)
 		case *extensions.SimpleExtensionDeclaration_ExtensionType_:
 			et := e.ExtensionType
 			urn, err := resolveRefToURN(et.ExtensionUrnReference)
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeType(et.TypeAnchor, TypeID{
-				URN:  urn,
-				Name: et.Name,
-			})
+			id := TypeID{URN: urn, Name: et.Name}
+			if other, ok := ret.typesMap[et.TypeAnchor]; ok && other != id {
+				return nil, fmt.Errorf("%w: type anchor %d is declared for both %v and %v", substraitgo.ErrKeyExists, et.TypeAnchor, other, id)
+			}
+			ret.encodeType(et.TypeAnchor, id)
 		case *extensions.SimpleExtensionDeclaration_ExtensionFunction_:
 			ef := e.ExtensionFunction
 			urn, err := resolveRefToURN(ef.ExtensionUrnReference)
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeFunc(ef.FunctionAnchor, FunctionID{
-				URN:  urn,
-				Name: ef.Name,
-			})
+			id := FunctionID{URN: urn, Name: ef.Name}
+			if other, ok := ret.funcMap[ef.FunctionAnchor]; ok && other != id {
+				return nil, fmt.Errorf("%w: function anchor %d is declared for both %v and %v", substraitgo.ErrKeyExists, ef.FunctionAnchor, other, id)
+			}
+			ret.encodeFunc(ef.FunctionAnchor, id)
 		}
 	}
 
-- 
2.43.0


From 389a410622fc9bf4957025c4ba304d7a92d8e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 049/118] fix: simple function names resolve per kind of
 function, and only if they are unambiguous

---
 extensions/extension_mgr.go | 58 ++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 016901c..65a11f0 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -101,7 +101,11 @@ func loadExtensionFile(collection *Collection, substraitFS embed.FS, ent fs.DirE
 type Collection struct {
 	urnSet map[string]struct{}
 
-	simpleNameMap map[FunctionID]string
+	// simple name aliases are kept per kind of function, as the same name may
+	// be declared for several kinds.
+	scalarNameMap    map[FunctionID]string
+	aggregateNameMap map[FunctionID]string
+	windowNameMap    map[FunctionID]string
 
 	scalarMap        map[FunctionID]*ScalarFunctionVariant
 	aggregateMap     map[FunctionID]*AggregateFunctionVariant
@@ -154,39 +158,46 @@ type extFn[T variants] interface {
 	GetVariants(urn string) []T
 }
 
-func addToMaps[T variants](id FunctionID, fn extFn[T], m map[FunctionID]T, simpleMap map[string]string) {
+func addToMaps[T variants](id FunctionID, fn extFn[T], m map[FunctionID]T, compoundNames map[string][]string) {
 	variants := fn.GetVariants(id.URN)
 	for _, v := range variants {
 		id.Name = v.CompoundName()
+		if _, ok := m[id]; !ok {
+			compoundNames[v.Name()] = append(compoundNames[v.Name()], v.CompoundName())
+		}
 		m[id] = v
 	}
+}
 
-	if len(variants) == 1 {
-		v := variants[0]
-		if _, ok := simpleMap[v.Name()]; ok {
-			delete(simpleMap, v.Name())
-		} else {
-			simpleMap[v.Name()] = v.CompoundName()
+// addSimpleNames makes every function which has only one implementation
+// findable by its simple name in addition to its compound name.
+func addSimpleNames(id FunctionID, compoundNames map[string][]string, simpleNames map[FunctionID]string) {
+	for name, compound := range compoundNames {
+		if len(compound) == 1 {
+			id.Name = name
+			simpleNames[id] = compound[0]
 		}
 	}
 }
 
 func (c *Collection) GetScalarFunc(id FunctionID) (*ScalarFunctionVariant, bool) {
-	return checkMaps(id, c.scalarMap, c.simpleNameMap)
+	return checkMaps(id, c.scalarMap, c.scalarNameMap)
 }
 
 func (c *Collection) GetAggregateFunc(id FunctionID) (*AggregateFunctionVariant, bool) {
-	return checkMaps(id, c.aggregateMap, c.simpleNameMap)
+	return checkMaps(id, c.aggregateMap, c.aggregateNameMap)
 }
 
 func (c *Collection) GetWindowFunc(id FunctionID) (*WindowFunctionVariant, bool) {
-	return checkMaps(id, c.windowMap, c.simpleNameMap)
+	return checkMaps(id, c.windowMap, c.windowNameMap)
 }
 
 func (c *Collection) init() {
 	if c.urnSet == nil {
 		c.urnSet = make(map[string]struct{})
-		c.simpleNameMap = make(map[FunctionID]string)
+		c.scalarNameMap = make(map[FunctionID]string)
+		c.aggregateNameMap = make(map[FunctionID]string)
+		c.windowNameMap = make(map[FunctionID]string)
 		c.scalarMap = make(map[FunctionID]*ScalarFunctionVariant)
 		c.aggregateMap = make(map[FunctionID]*AggregateFunctionVariant)
 		c.windowMap = make(map[FunctionID]*WindowFunctionVariant)
@@ -249,30 +260,30 @@ func (c *Collection) Load(r io.Reader) error {
 
 	id := FunctionID{URN: urn}
 
-	// if there is only one implementation for a given function
-	// it should be findable by its simple name in addition to the
-	// compound name.
-	simpleNames := make(map[string]string)
+	// compound names declared for each function name, per kind of function
+	scalarNames := make(map[string][]string)
+	aggregateNames := make(map[string][]string)
+	windowNames := make(map[string][]string)
 
 	for _, f := range file.ScalarFunctions {
 		if err := defaults.Set(&f); err != nil {
 			return fmt.Errorf("failure setting defaults for scalar functions: %w", err)
 		}
-		addToMaps[*ScalarFunctionVariant](id, &f, c.scalarMap, simpleNames)
+		addToMaps[*ScalarFunctionVariant](id, &f, c.scalarMap, scalarNames)
 	}
 
 	for _, f := range file.AggregateFunctions {
 		if err := defaults.Set(&f); err != nil {
 			return fmt.Errorf("failure setting defaults for aggregate functions: %w", err)
 		}
-		addToMaps[*AggregateFunctionVariant](id, &f, c.aggregateMap, simpleNames)
+		addToMaps[*AggregateFunctionVariant](id, &f, c.aggregateMap, aggregateNames)
 	}
 
 	for _, f := range file.WindowFunctions {
 		if err := defaults.Set(&f); err != nil {
 			return fmt.Errorf("failure setting defaults for window functions: %w", err)
 		}
-		addToMaps[*WindowFunctionVariant](id, &f, c.windowMap, simpleNames)
+		addToMaps[*WindowFunctionVariant](id, &f, c.windowMap, windowNames)
 	}
 
 	// Aggregate functions can be used as Window Functions
@@ -295,14 +306,13 @@ func (c *Collection) Load(r io.Reader) error {
 		if err := defaults.Set(&wf); err != nil {
 			return fmt.Errorf("failure setting defaults for window functions: %w", err)
 		}
-		addToMaps[*WindowFunctionVariant](id, &wf, c.windowMap, simpleNames)
+		addToMaps[*WindowFunctionVariant](id, &wf, c.windowMap, windowNames)
 	}
 
 	// add simple name aliases
-	for k, v := range simpleNames {
-		id.Name = k
-		c.simpleNameMap[id] = v
-	}
+	addSimpleNames(id, scalarNames, c.scalarNameMap)
+	addSimpleNames(id, aggregateNames, c.aggregateNameMap)
+	addSimpleNames(id, windowNames, c.windowNameMap)
 
 	return nil
 }
-- 
2.43.0


From ba75c75f11d51cad424745455d28f80ad496b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 050/118] fix: a declared window function is not replaced by an
 aggregate function of the same signature

---
 extensions/extension_mgr.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 65a11f0..e0e0e8c 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -289,12 +289,17 @@ func (c *Collection) Load(r io.Reader) error {
 	// Aggregate functions can be used as Window Functions
 	for _, f := range file.AggregateFunctions {
 		// Convert each aggregate implementation to a window implementation
-		windowImpls := make([]WindowFunctionImpl, len(f.Impls))
-		for i, aggImpl := range f.Impls {
-			windowImpls[i] = WindowFunctionImpl{
+		windowImpls := make([]WindowFunctionImpl, 0, len(f.Impls))
+		for _, aggImpl := range f.Impls {
+			id.Name = f.Name + ":" + aggImpl.signatureKey()
+			if _, ok := c.windowMap[id]; ok {
+				// the window function declared in the file takes precedence
+				continue
+			}
+			windowImpls = append(windowImpls, WindowFunctionImpl{
 				AggregateFunctionImpl: aggImpl,
 				WindowType:            StreamingWindow, // Set window type to STREAMING
-			}
+			})
 		}
 
 		wf := WindowFunction{
-- 
2.43.0


From ae83ca19d023d368e89d320405328b78bf7749ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 051/118] fix: resolving the return type of a function which
 declares none is an error

---
 extensions/variants.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 7ed5661..db5af3d 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -84,6 +84,9 @@ func validateType(funcParameter FuncParameter, actual types.Type, idx int, nullH
 //	registry: the Set of extensions to look up/add user defined types to
 func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, returnTypeExpr types.FuncDefArgType,
 	funcParameters FuncParameterList, variadic *VariadicBehavior, argumentTypes []types.Type, registry Set) (types.Type, error) {
+	if returnTypeExpr == nil {
+		return nil, fmt.Errorf("%w: the function declares no return type", substraitgo.ErrInvalidExpr)
+	}
 	if variadic != nil {
 		numVariadicArgs := len(argumentTypes) - (len(funcParameters) - 1)
 		if numVariadicArgs < 0 {
@@ -335,6 +338,15 @@ func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	return name, args
 }
 
+// declaredReturnType is the declared return type of a function, or nil if it
+// doesn't declare any.
+func declaredReturnType(ret *parser.TypeExpression) types.FuncDefArgType {
+	if ret == nil {
+		return nil
+	}
+	return ret.ValueType
+}
+
 func minArgumentCount(paramTypeList FuncParameterList, variadicBehavior *VariadicBehavior) int {
 	if variadicBehavior == nil {
 		return len(paramTypeList)
@@ -400,7 +412,7 @@ func (s *ScalarFunctionVariant) Nullability() NullabilityHandling { return s.imp
 func (s *ScalarFunctionVariant) URN() string                      { return s.urn }
 func (s *ScalarFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *ScalarFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, declaredReturnType(s.impl.Return), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *ScalarFunctionVariant) CompoundName() string {
 	return s.name + ":" + s.impl.signatureKey()
@@ -514,7 +526,7 @@ func (s *AggregateFunctionVariant) Nullability() NullabilityHandling { return s.
 func (s *AggregateFunctionVariant) URN() string                      { return s.urn }
 func (s *AggregateFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *AggregateFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, declaredReturnType(s.impl.Return), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *AggregateFunctionVariant) CompoundName() string {
 	return s.name + ":" + s.impl.signatureKey()
@@ -636,7 +648,7 @@ func (s *WindowFunctionVariant) Nullability() NullabilityHandling { return s.imp
 func (s *WindowFunctionVariant) URN() string                      { return s.urn }
 func (s *WindowFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *WindowFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, declaredReturnType(s.impl.Return), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *WindowFunctionVariant) CompoundName() string {
 	return s.name + ":" + s.impl.signatureKey()
-- 
2.43.0


From ef1d18cf920b9ea62cdea356772f6eecafef277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 052/118] fix: malformed function arguments in an extension
 file are an error

---
 extensions/simple_extension.go | 73 ++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 29 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 5a4a259..59bd411 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -114,6 +114,29 @@ func (v TypeArg) GetTypeExpression() types.FuncDefArgType {
 
 type FuncParameterList []FuncParameter
 
+// argField returns a field of an argument, or its zero value if it is left out.
+func argField[T any](arg map[string]any, key string) (T, error) {
+	v, ok := arg[key].(T)
+	if !ok && arg[key] != nil {
+		return v, fmt.Errorf("%w: invalid %s of an argument: %v", substraitgo.ErrInvalidSimpleExtention, key, arg[key])
+	}
+	return v, nil
+}
+
+// assignYAML decodes an already decoded value.
+func assignYAML(val any) func(any) error {
+	return func(v any) error {
+		rv := reflect.ValueOf(v)
+		if rv.Type().Kind() != reflect.Ptr {
+			return substraitgo.ErrInvalidType
+		}
+		if val != nil {
+			rv.Elem().Set(reflect.ValueOf(val))
+		}
+		return nil
+	}
+}
+
 func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 	var args []map[string]any
 	if err := fn(&args); err != nil {
@@ -122,21 +145,25 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 
 	*a = make(FuncParameterList, len(args))
 	for i, arg := range args {
-		var (
-			name, desc string
-		)
-		if n, ok := arg["name"]; ok {
-			name = n.(string)
+		name, err := argField[string](arg, "name")
+		if err != nil {
+			return err
 		}
-		if d, ok := arg["description"]; ok {
-			desc = d.(string)
+		desc, err := argField[string](arg, "description")
+		if err != nil {
+			return err
 		}
 
-		if opt, ok := arg["options"]; ok {
-			vals := opt.([]any)
+		if _, ok := arg["options"]; ok {
+			vals, err := argField[[]any](arg, "options")
+			if err != nil {
+				return err
+			}
 			values := make([]string, len(vals))
 			for j, v := range vals {
-				values[j] = v.(string)
+				if values[j], ok = v.(string); !ok {
+					return fmt.Errorf("%w: option %v of an argument is not a string", substraitgo.ErrInvalidSimpleExtention, v)
+				}
 			}
 			(*a)[i] = EnumArg{
 				Name:        name,
@@ -144,9 +171,9 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 				Options:     values,
 			}
 		} else if val, ok := arg["value"]; ok {
-			var constant bool
-			if c, ok := arg["constant"]; ok {
-				constant = c.(bool)
+			constant, err := argField[bool](arg, "constant")
+			if err != nil {
+				return err
 			}
 
 			arg := ValueArg{
@@ -155,14 +182,7 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 				Value:       new(parser.TypeExpression),
 				Constant:    constant,
 			}
-			err := arg.Value.UnmarshalYAML(func(v any) error {
-				rv := reflect.ValueOf(v)
-				if rv.Type().Kind() != reflect.Ptr {
-					return substraitgo.ErrInvalidType
-				}
-				rv.Elem().Set(reflect.ValueOf(val))
-				return nil
-			})
+			err = arg.Value.UnmarshalYAML(assignYAML(val))
 			if err != nil {
 				return fmt.Errorf("failure reading YAML %v", err)
 			}
@@ -175,19 +195,14 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 				Description: desc,
 				Type:        new(parser.TypeExpression),
 			}
-			err := arg.Type.UnmarshalYAML(func(v any) error {
-				rv := reflect.ValueOf(v)
-				if rv.Type().Kind() != reflect.Ptr {
-					return substraitgo.ErrInvalidType
-				}
-				rv.Elem().Set(reflect.ValueOf(typ))
-				return nil
-			})
+			err := arg.Type.UnmarshalYAML(assignYAML(typ))
 			if err != nil {
 				return fmt.Errorf("failure reading YAML %v", err)
 			}
 
 			(*a)[i] = arg
+		} else {
+			return fmt.Errorf("%w: argument #%d has neither options, value nor type", substraitgo.ErrInvalidSimpleExtention, i)
 		}
 	}
 
-- 
2.43.0


From 0f872998dd55560f61e3425fe1f05cd96a700a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 053/118] fix: values of the wrong type in an extension file
 are an error

---
 extensions/extension_mgr.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index e0e0e8c..433a64a 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -207,12 +207,22 @@ func (c *Collection) init() {
 	}
 }
 
+// decodeYAML decodes the extension file in r. The YAML decoder panics for some values
+// which can't be assigned to their field, which is an error of the file.
+func decodeYAML(r io.Reader, file *SimpleExtensionFile) (err error) {
+	defer func() {
+		if p := recover(); p != nil {
+			err = fmt.Errorf("%w: %v", substraitgo.ErrInvalidSimpleExtention, p)
+		}
+	}()
+	return yaml.NewDecoder(r).Decode(file)
+}
+
 func (c *Collection) Load(r io.Reader) error {
 	c.init()
 
 	var file SimpleExtensionFile
-	dec := yaml.NewDecoder(r)
-	if err := dec.Decode(&file); err != nil {
+	if err := decodeYAML(r, &file); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 9b46027828f591f35657ee50af606722fd3ef7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:05 +0000
Subject: [PATCH 054/118] fix: functions are found by the number of arguments
 their variadic parameter accepts

---
 functions/functions.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/functions/functions.go b/functions/functions.go
index 77b5d77..ca22e5e 100644
--- a/functions/functions.go
+++ b/functions/functions.go
@@ -78,10 +78,21 @@ func (f *functionRegistryImpl) GetWindowFunctions(name string, numArgs int) []*e
 	return getFunctionVariantsByCount(f.GetWindowFunctionsByName(name), numArgs)
 }
 
+// acceptsArgumentCount tells whether f can be called with numArgs arguments.
+// The last parameter of a variadic function is the one which is repeated.
+func acceptsArgumentCount(f extensions.FunctionVariant, numArgs int) bool {
+	numParams := len(f.Args())
+	if f.Variadic() == nil || numParams == 0 {
+		return numArgs == numParams
+	}
+	numVariadicArgs := numArgs - (numParams - 1)
+	return numVariadicArgs >= 0 && f.Variadic().IsValidArgumentCount(numVariadicArgs)
+}
+
 func getFunctionVariantsByCount[T extensions.FunctionVariant](functions []T, numArgs int) []T {
 	ret := make([]T, 0)
 	for _, f := range functions {
-		if len(f.Args()) == numArgs || f.Variadic().IsValidArgumentCount(numArgs) {
+		if len(f.Args()) == numArgs || acceptsArgumentCount(f, numArgs) {
 			ret = append(ret, f)
 		}
 	}
-- 
2.43.0


From b198ca28701cd17ee02e929916cb4607ff28f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:10 +0000
Subject: [PATCH 055/118] fix: a dialect may use the name of another function
 as a local name

---
 functions/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 3efba63..9c2ed35 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -110,7 +110,7 @@ func makeLocalFunctionVariantMapAndSlice[T withID, V localFunctionVariant](
 	variantsMap := make(map[FunctionName][]V)
 	variantsSlice := make([]V, 0)
 	for _, dfi := range dialectFunctionInfos {
-		if _, nameAlreadyProcessed := variantsMap[LocalFunctionName(dfi.Name)]; nameAlreadyProcessed {
+		if _, nameAlreadyProcessed := variantsMap[SubstraitFunctionName(dfi.Name)]; nameAlreadyProcessed {
 			if _, ok := processedFunctions[dfi.ID]; !ok {
 				var invocationType V
 				return nil, fmt.Errorf("%w: no %s function variant found for '%s'", substraitgo.ErrInvalidDialect, invocationType.InvocationTypeName(), dfi.ID)
-- 
2.43.0


From 9eda8d222c7c4bd3971e935ef49820b0fc24c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:14 +0000
Subject: [PATCH 056/118] fix: a dialect finds the variant of the invoked kind
 for functions of several kinds

---
 functions/dialect.go         | 18 ++++++++++--------
 functions/local_functions.go | 36 ++++++++++++++++--------------------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 9c2ed35..46df083 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -77,14 +77,16 @@ func (d *dialectImpl) LocalizeFunctionRegistry(registry FunctionRegistry) (Local
 	allVariants = appendVariants(allVariants, windowFunctions.variantsSlice)
 
 	return &localFunctionRegistryImpl{
-		dialect:              d,
-		scalarFunctions:      scalarFunctions.variantsMap,
-		aggregateFunctions:   aggregateFunctions.variantsMap,
-		windowFunctions:      windowFunctions.variantsMap,
-		allFunctions:         allVariants,
-		idToLocalFunctionMap: makeLocalFunctionVariantsMap(allVariants),
-		localTypeRegistry:    localTypeRegistry,
-		funcRegistry:         registry,
+		dialect:               d,
+		scalarFunctions:       scalarFunctions.variantsMap,
+		aggregateFunctions:    aggregateFunctions.variantsMap,
+		windowFunctions:       windowFunctions.variantsMap,
+		allFunctions:          allVariants,
+		idToScalarFunction:    makeLocalFunctionVariantsMap(scalarFunctions.variantsSlice),
+		idToAggregateFunction: makeLocalFunctionVariantsMap(aggregateFunctions.variantsSlice),
+		idToWindowFunction:    makeLocalFunctionVariantsMap(windowFunctions.variantsSlice),
+		localTypeRegistry:     localTypeRegistry,
+		funcRegistry:          registry,
 	}, nil
 }
 
diff --git a/functions/local_functions.go b/functions/local_functions.go
index 5213d43..dda5c59 100644
--- a/functions/local_functions.go
+++ b/functions/local_functions.go
@@ -17,22 +17,18 @@ type localFunctionRegistryImpl struct {
 
 	allFunctions []extensions.FunctionVariant
 
-	idToLocalFunctionMap map[extensions.FunctionID]localFunctionVariant
-	localTypeRegistry    LocalTypeRegistry
-	funcRegistry         FunctionRegistry
+	// an ID may be a function of several kinds, such as an aggregate function usable as a window function
+	idToScalarFunction    map[extensions.FunctionID]*LocalScalarFunctionVariant
+	idToAggregateFunction map[extensions.FunctionID]*LocalAggregateFunctionVariant
+	idToWindowFunction    map[extensions.FunctionID]*LocalWindowFunctionVariant
+	localTypeRegistry     LocalTypeRegistry
+	funcRegistry          FunctionRegistry
 }
 
-func makeLocalFunctionVariantsMap(functions []extensions.FunctionVariant) map[extensions.FunctionID]localFunctionVariant {
-	localFunctionVariants := make(map[extensions.FunctionID]localFunctionVariant)
-	for _, f := range functions {
-		switch variant := f.(type) {
-		case *LocalScalarFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		case *LocalAggregateFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		case *LocalWindowFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		}
+func makeLocalFunctionVariantsMap[V withID](functions []V) map[extensions.FunctionID]V {
+	localFunctionVariants := make(map[extensions.FunctionID]V)
+	for _, variant := range functions {
+		localFunctionVariants[variant.ID()] = variant
 	}
 	return localFunctionVariants
 }
@@ -62,20 +58,20 @@ func (l *localFunctionRegistryImpl) GetWindowFunctions(name FunctionName, numArg
 }
 
 func (l *localFunctionRegistryImpl) GetScalarFunctionByInvocation(scalarFuncInvocation *expr.ScalarFunction) (*LocalScalarFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalScalarFunctionVariant](scalarFuncInvocation, l)
+	return getFunctionVariantByInvocation(scalarFuncInvocation, l.idToScalarFunction, l)
 }
 
 func (l *localFunctionRegistryImpl) GetAggregateFunctionByInvocation(aggregateFuncInvocation *expr.AggregateFunction) (*LocalAggregateFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalAggregateFunctionVariant](aggregateFuncInvocation, l)
+	return getFunctionVariantByInvocation(aggregateFuncInvocation, l.idToAggregateFunction, l)
 }
 
 func (l *localFunctionRegistryImpl) GetWindowFunctionByInvocation(windowFuncInvocation *expr.WindowFunction) (*LocalWindowFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalWindowFunctionVariant](windowFuncInvocation, l)
+	return getFunctionVariantByInvocation(windowFuncInvocation, l.idToWindowFunction, l)
 }
 
-func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.FunctionInvocation, registry *localFunctionRegistryImpl) (V, error) {
+func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.FunctionInvocation, functions map[extensions.FunctionID]V, registry *localFunctionRegistryImpl) (V, error) {
 	var zeroV V
-	f, ok := registry.idToLocalFunctionMap[invocation.ID()]
+	f, ok := functions[invocation.ID()]
 	if !ok {
 		return zeroV, fmt.Errorf("function variant not found for function: %s", invocation.ID())
 	}
@@ -93,7 +89,7 @@ func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.Func
 			}
 		}
 	}
-	return f.(V), nil
+	return f, nil
 }
 
 var _ LocalFunctionRegistry = &localFunctionRegistryImpl{}
-- 
2.43.0


From 4a7298c891ca15d717cf8b2785ea80ac0b707bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 057/118] fix: the local type registry of a dialect does not
 depend on the map order

---
 functions/dialect.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 46df083..e26ccb1 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -5,6 +5,8 @@ package functions
 import (
 	"fmt"
 	"io"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/creasty/defaults"
@@ -168,7 +170,10 @@ func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, err
 		return d.localTypeRegistry, nil
 	}
 	typeInfos := make([]typeInfo, 0, len(d.toLocalTypeMap))
-	for name, info := range d.toLocalTypeMap {
+	// in the order of their names, so that the result doesn't depend on the map order
+	// if several types share a local name
+	for _, name := range slices.Sorted(maps.Keys(d.toLocalTypeMap)) {
+		info := d.toLocalTypeMap[name]
 		// TODO use registry.GetTypeClasses
 		typ, err := getTypeFromBaseTypeName(name)
 		if err != nil {
-- 
2.43.0


From 853c702cf3533fcdcce6921d3bd690a249fdeb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 058/118] fix: type registries accept the precision of
 interval_day and precision types

---
 functions/types.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/functions/types.go b/functions/types.go
index 1231556..26edc49 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -98,6 +98,27 @@ func getTypeWithParameters(typ types.Type, parameters []int32) (types.Type, erro
 		case *types.VarCharType:
 			return &types.VarCharType{Length: parameters[0]}, nil
 		}
+	case *types.IntervalDayType, *types.PrecisionTimeType, *types.PrecisionTimestampType, *types.PrecisionTimestampTzType:
+		if len(parameters) == 0 {
+			return typ, nil
+		}
+		if len(parameters) != 1 {
+			return nil, substraitgo.ErrInvalidType
+		}
+		precision, err := types.ProtoToTimePrecision(parameters[0])
+		if err != nil {
+			return nil, err
+		}
+		switch typ.(type) {
+		case *types.IntervalDayType:
+			return &types.IntervalDayType{Precision: precision}, nil
+		case *types.PrecisionTimeType:
+			return types.NewPrecisionTimeType(precision), nil
+		case *types.PrecisionTimestampType:
+			return types.NewPrecisionTimestampType(precision), nil
+		case *types.PrecisionTimestampTzType:
+			return types.NewPrecisionTimestampTzType(precision), nil
+		}
 	default:
 		if len(parameters) != 0 {
 			return nil, substraitgo.ErrInvalidType
-- 
2.43.0


From 63f7b33cd2c3b686e09676f8f7ddb65233030f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:07 +0000
Subject: [PATCH 059/118] fix: test files reject numbers and type parameters
 out of range instead of wrapping them

---
 testcases/parser/visitor.go | 40 +++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index d2b07e1..cf393dc 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -537,7 +537,11 @@ func (v *TestCaseVisitor) getLiteralFromString(ctx antlr.ParserRuleContext, valu
 }
 
 func getFloatLiteral(floatStr string, floatType types.Type) (expr.Literal, error) {
-	value, err := strconv.ParseFloat(floatStr, 64)
+	bitSize := 64
+	if _, ok := floatType.(*types.Float32Type); ok {
+		bitSize = 32
+	}
+	value, err := strconv.ParseFloat(floatStr, bitSize)
 	if err != nil {
 		return nil, err
 	}
@@ -553,7 +557,16 @@ func getFloatLiteral(floatStr string, floatType types.Type) (expr.Literal, error
 }
 
 func getIntLiteral(integerStr string, intType types.Type) (expr.Literal, error) {
-	value, err := strconv.ParseInt(integerStr, 10, 64)
+	bitSize := 64
+	switch intType.(type) {
+	case *types.Int8Type:
+		bitSize = 8
+	case *types.Int16Type:
+		bitSize = 16
+	case *types.Int32Type:
+		bitSize = 32
+	}
+	value, err := strconv.ParseInt(integerStr, 10, bitSize)
 	if err != nil {
 		return nil, err
 	}
@@ -587,7 +600,7 @@ func (v *TestCaseVisitor) VisitFloatArg(ctx *baseparser.FloatArgContext) interfa
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid float arg %v", err))
 	}
-	return &CaseLiteral{Value: floatLiteral, ValueText: ctx.NumericLiteral().GetText(), Type: floatLiteral.GetType()}
+	return &CaseLiteral{Value: floatLiteral, ValueText: ctx.NumericLiteral().GetText(), Type: typ}
 }
 
 func (v *TestCaseVisitor) VisitStringArg(ctx *baseparser.StringArgContext) interface{} {
@@ -1053,32 +1066,43 @@ func (v *TestCaseVisitor) VisitDecimalType(ctx *baseparser.DecimalTypeContext) i
 		precision = v.Visit(ctx.GetPrecision()).(int32)
 		scale = v.Visit(ctx.GetScale()).(int32)
 	}
+	if precision < 1 || precision > 38 || scale < 0 || scale > precision {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid decimal precision %d and scale %d", precision, scale))
+	}
 	return &types.DecimalType{Precision: precision, Scale: scale, Nullability: getNullability(ctx)}
 }
 
 func (v *TestCaseVisitor) VisitIntegerLiteral(ctx *baseparser.IntegerLiteralContext) interface{} {
-	value, err := strconv.Atoi(ctx.GetText())
+	value, err := strconv.ParseInt(ctx.GetText(), 10, 32)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid int arg %v", err))
 	}
 	return int32(value)
 }
 
+// timePrecision is the precision of a time, timestamp or interval type.
+func (v *TestCaseVisitor) timePrecision(ctx antlr.ParserRuleContext, precision int32) types.TimePrecision {
+	if precision < 0 || precision > 9 {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid precision %d, expected 0 to 9", precision))
+	}
+	return types.TimePrecision(precision)
+}
+
 func (v *TestCaseVisitor) VisitPrecisionTimeType(ctx *baseparser.PrecisionTimeTypeContext) interface{} {
 	length := v.Visit(ctx.GetPrecision()).(int32)
-	return &types.PrecisionTimeType{Precision: types.TimePrecision(length), Nullability: getNullability(ctx)}
+	return &types.PrecisionTimeType{Precision: v.timePrecision(ctx, length), Nullability: getNullability(ctx)}
 }
 
 func (v *TestCaseVisitor) VisitPrecisionTimestampType(ctx *baseparser.PrecisionTimestampTypeContext) interface{} {
 	length := v.Visit(ctx.GetPrecision()).(int32)
-	return &types.PrecisionTimestampType{Precision: types.TimePrecision(length), Nullability: getNullability(ctx)}
+	return &types.PrecisionTimestampType{Precision: v.timePrecision(ctx, length), Nullability: getNullability(ctx)}
 }
 
 func (v *TestCaseVisitor) VisitPrecisionTimestampTZType(ctx *baseparser.PrecisionTimestampTZTypeContext) interface{} {
 	length := v.Visit(ctx.GetPrecision()).(int32)
 	return &types.PrecisionTimestampTzType{
 		PrecisionTimestampType: types.PrecisionTimestampType{
-			Precision:   types.TimePrecision(length),
+			Precision:   v.timePrecision(ctx, length),
 			Nullability: getNullability(ctx),
 		},
 	}
@@ -1089,7 +1113,7 @@ func (v *TestCaseVisitor) VisitIntervalDayType(ctx *baseparser.IntervalDayTypeCo
 	if ctx.GetLen_() != nil {
 		length = v.Visit(ctx.GetLen_()).(int32)
 	}
-	return &types.IntervalDayType{Precision: types.TimePrecision(length), Nullability: getNullability(ctx)}
+	return &types.IntervalDayType{Precision: v.timePrecision(ctx, length), Nullability: getNullability(ctx)}
 }
 
 func (v *TestCaseVisitor) VisitFixedCharType(ctx *baseparser.FixedCharTypeContext) interface{} {
-- 
2.43.0


From 85083f652f85a7ba737746268f185a65e7958c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:10 +0000
Subject: [PATCH 060/118] fix: strings of test files are unescaped when read
 and escaped when printed, also in lists

---
 testcases/parser/nodes.go   | 8 +++++++-
 testcases/parser/visitor.go | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 6dfaae9..0910622 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -60,6 +60,12 @@ func literalToString(literal expr.Literal) string {
 	switch lit := literal.(type) {
 	case *expr.NullLiteral:
 		return literal.ValueString()
+	case *expr.ListLiteral:
+		elements := make([]string, len(lit.Value))
+		for i, element := range lit.Value {
+			elements[i] = literalToString(element)
+		}
+		return "[" + strings.Join(elements, ", ") + "]"
 	case types.IsoValuePrinter:
 		switch literal.GetType().(type) {
 		// for these types enclose in single quotes
@@ -74,7 +80,7 @@ func literalToString(literal expr.Literal) string {
 	// for these types enclose in single quotes
 	case *types.StringType, *types.FixedCharType, *types.VarCharType,
 		*types.FixedBinaryType, *types.BinaryType, *types.DateType:
-		return fmt.Sprintf("'%s'", literal.ValueString())
+		return fmt.Sprintf("'%s'", stringEscaper.Replace(literal.ValueString()))
 	default:
 		return literal.ValueString()
 	}
diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index cf393dc..95965e5 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -647,9 +647,16 @@ func (v *TestCaseVisitor) VisitTimestampArg(ctx *baseparser.TimestampArgContext)
 }
 
 func getRawStringFromStringLiteral(text string) string {
-	return strings.Trim(text, "'")
+	text = strings.TrimSuffix(strings.TrimPrefix(text, "'"), "'")
+	return stringUnescaper.Replace(text)
 }
 
+// A quote or a backslash within a string literal is preceded by a backslash.
+var (
+	stringUnescaper = strings.NewReplacer(`\\`, `\`, `\'`, `'`)
+	stringEscaper   = strings.NewReplacer(`\`, `\\`, `'`, `\'`)
+)
+
 func (v *TestCaseVisitor) VisitTimestampTzArg(ctx *baseparser.TimestampTzArgContext) interface{} {
 	nullability := getNullability(ctx.TimestampTZType())
 	value, err := literal.NewTimestampTZFromString(getRawStringFromStringLiteral(ctx.TimestampTzLiteral().GetText()), nullability == types.NullabilityNullable)
-- 
2.43.0


From 724b057f85d048b8adb8a28718ef81ccf0bcee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 061/118] fix: characters of a test file that are no token are
 an error

---
 testcases/parser/parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/testcases/parser/parse.go b/testcases/parser/parse.go
index 42e0e2b..de17e37 100644
--- a/testcases/parser/parse.go
+++ b/testcases/parser/parse.go
@@ -38,6 +38,8 @@ func parseTestCasesFromStream(is *antlr.InputStream, debugStr string) (*TestFile
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser.NewFuncTestCaseParser(stream)
 	errorListener := util.NewSimpleErrorListener()
+	lexer.RemoveErrorListeners()
+	lexer.AddErrorListener(errorListener)
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-- 
2.43.0


From 9f5af2ecc41f32ee0bf54e0f93cc7dc0eee60378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 062/118] fix: list elements and table cells of test files have
 their declared type

---
 testcases/parser/nodes.go   |   2 +-
 testcases/parser/visitor.go | 204 +++++++++++++++++++++++++-----------
 2 files changed, 144 insertions(+), 62 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 0910622..98050c5 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -479,7 +479,7 @@ func (a *AggregateArgument) GetType() types.Type {
 }
 
 func newAggregateArgument(tableName string, columnName string, columnType types.Type) (*AggregateArgument, error) {
-	index, err := strconv.ParseInt(columnName[3:], 10, 64)
+	index, err := strconv.ParseInt(columnName[3:], 10, 32)
 	if err != nil {
 		return nil, err
 	}
diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 95965e5..fd3bcf7 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -145,25 +145,43 @@ func (v *TestCaseVisitor) VisitSingleArgAggregateFuncCall(ctx *baseparser.Single
 	}
 }
 
+// maxEmptyTableColumns bounds the columns of a table without rows.
+const maxEmptyTableColumns = 1 << 16
+
 func (v *TestCaseVisitor) VisitCompactAggregateFuncCall(ctx *baseparser.CompactAggregateFuncCallContext) interface{} {
-	rows := v.Visit(ctx.TableRows()).([][]expr.Literal)
 	var args []*AggregateArgument
 	if ctx.AggregateFuncArgs() != nil {
 		args = v.Visit(ctx.AggregateFuncArgs()).([]*AggregateArgument)
 	}
 
-	numberOfColumns := int32(len(rows[0]))
+	numberOfColumns := int32(0)
+	if rows := ctx.TableRows().AllColumnValues(); len(rows) > 0 {
+		numberOfColumns = int32(len(rows[0].AllLiteral()))
+	} else {
+		// the table is empty, the arguments tell its columns
+		for _, arg := range args {
+			if !arg.IsScalar && arg.ColumnIndex < maxEmptyTableColumns {
+				numberOfColumns = max(numberOfColumns, arg.ColumnIndex+1)
+			}
+		}
+	}
 	columnTypes := make([]types.Type, numberOfColumns)
 	for _, arg := range args {
+		if arg.IsScalar {
+			continue
+		}
 		if arg.ColumnIndex >= numberOfColumns {
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid column index %d, expected less than %d", arg.ColumnIndex, len(columnTypes)))
 			continue
 		}
-		if arg.ColumnType != nil {
-			columnTypes[arg.ColumnIndex] = arg.ColumnType
+		if declared := columnTypes[arg.ColumnIndex]; declared != nil && !declared.Equals(arg.ColumnType) {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("column %d has types %s and %s", arg.ColumnIndex, declared, arg.ColumnType))
+			continue
 		}
+		columnTypes[arg.ColumnIndex] = arg.ColumnType
 	}
-	columns, newColumnTypes := v.getColumnsFromRows(ctx, rows, columnTypes)
+	rows := v.visitRows(ctx.TableRows(), columnTypes)
+	columns, newColumnTypes := v.getColumnsFromRows(rows, columnTypes)
 	return &TestCase{
 		FuncName:      ctx.Identifier().GetText(),
 		Columns:       columns,
@@ -188,6 +206,10 @@ func (v *TestCaseVisitor) VisitMultiArgAggregateFuncCall(ctx *baseparser.MultiAr
 			}
 		}
 		if !arg.IsScalar {
+			if int(arg.ColumnIndex) >= len(testcase.ColumnTypes) {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid column index %d, expected less than %d", arg.ColumnIndex, len(testcase.ColumnTypes)))
+				continue
+			}
 			arg.ColumnType = testcase.ColumnTypes[arg.ColumnIndex]
 		}
 	}
@@ -218,12 +240,12 @@ func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArg(ctx *baseparser.Qualifi
 
 func (v *TestCaseVisitor) VisitTableData(ctx *baseparser.TableDataContext) interface{} {
 	columnTypes := make([]types.Type, 0, len(ctx.AllDataType()))
-	rows := v.Visit(ctx.TableRows()).([][]expr.Literal)
 	for _, dataType := range ctx.AllDataType() {
 		columnType := v.Visit(dataType).(types.Type)
 		columnTypes = append(columnTypes, columnType)
 	}
-	columns, newColumnTypes := v.getColumnsFromRows(ctx, rows, columnTypes)
+	rows := v.visitRows(ctx.TableRows(), columnTypes)
+	columns, newColumnTypes := v.getColumnsFromRows(rows, columnTypes)
 	return &TestCase{
 		Columns:     columns,
 		TableName:   ctx.GetTableName().GetText(),
@@ -231,15 +253,36 @@ func (v *TestCaseVisitor) VisitTableData(ctx *baseparser.TableDataContext) inter
 	}
 }
 
-func (v *TestCaseVisitor) getColumnsFromRows(ctx antlr.ParserRuleContext, rows [][]expr.Literal, columnTypes []types.Type) ([][]expr.Literal, []types.Type) {
+// visitRows reads the rows of a table whose columns have the given types (nil if
+// the type of a column is not known).
+func (v *TestCaseVisitor) visitRows(ctx baseparser.ITableRowsContext, columnTypes []types.Type) [][]expr.Literal {
+	defer v.clearLiteralTypeInContext()
+	rows := make([][]expr.Literal, 0, len(ctx.AllColumnValues()))
+	for _, rowCtx := range ctx.AllColumnValues() {
+		cells := rowCtx.AllLiteral()
+		if len(cells) != len(columnTypes) {
+			v.ErrorListener.ReportVisitError(rowCtx, fmt.Errorf("row %s has %d values, expected %d", rowCtx.GetText(), len(cells), len(columnTypes)))
+			continue
+		}
+		row := make([]expr.Literal, 0, len(cells))
+		for i, cell := range cells {
+			v.setLiteralTypeInContext(columnTypes[i])
+			row = append(row, v.visitTypedLiteral(cell))
+		}
+		rows = append(rows, row)
+	}
+	return rows
+}
+
+func (v *TestCaseVisitor) getColumnsFromRows(rows [][]expr.Literal, columnTypes []types.Type) ([][]expr.Literal, []types.Type) {
 	columns := make([][]expr.Literal, 0, len(columnTypes))
 	retColumnTypes := make([]types.Type, 0, len(columnTypes))
 	for i, columnType := range columnTypes {
 		newColumnType := columnType
 		column := make([]expr.Literal, 0, len(rows))
 		for _, row := range rows {
-			cell := v.getLiteral(ctx, row[i], columnType)
-			if _, ok := cell.(*expr.NullLiteral); ok {
+			cell := row[i]
+			if _, ok := cell.(*expr.NullLiteral); ok && columnType != nil {
 				newColumnType = columnType.WithNullability(types.NullabilityNullable)
 				cell = expr.NewNullLiteral(newColumnType)
 			}
@@ -292,8 +335,8 @@ func (v *TestCaseVisitor) VisitTableRows(ctx *baseparser.TableRowsContext) inter
 func (v *TestCaseVisitor) VisitColumnValues(ctx *baseparser.ColumnValuesContext) interface{} {
 	values := make([]expr.Literal, 0, len(ctx.AllLiteral()))
 	for _, literalValue := range ctx.AllLiteral() {
-		if result := v.Visit(literalValue); result != nil {
-			values = append(values, result.(expr.Literal))
+		if result := v.visitTypedLiteral(literalValue); result != nil {
+			values = append(values, result)
 		}
 	}
 	return values
@@ -453,18 +496,6 @@ func (v *TestCaseVisitor) VisitBooleanArg(ctx *baseparser.BooleanArgContext) int
 	return &CaseLiteral{Value: boolLiteral, ValueText: ctx.BooleanLiteral().GetText(), Type: &types.BooleanType{Nullability: nullability}}
 }
 
-func (v *TestCaseVisitor) getLiteral(ctx antlr.ParserRuleContext, value expr.Literal, elementType types.Type) expr.Literal {
-	strLiteral, ok := value.(*expr.PrimitiveLiteral[string])
-	if !ok {
-		return value
-	}
-	ret := v.getLiteralFromString(ctx, strLiteral.Value, elementType)
-	if ret == nil {
-		return value
-	}
-	return ret
-}
-
 func (v *TestCaseVisitor) getLiteralFromString(ctx antlr.ParserRuleContext, value string, elementType types.Type) expr.Literal {
 	switch elementType := elementType.(type) {
 	case *types.Int8Type, *types.Int16Type, *types.Int32Type, *types.Int64Type:
@@ -750,21 +781,20 @@ func (v *TestCaseVisitor) VisitPrecisionTimestampTZArg(ctx *baseparser.Precision
 
 func (v *TestCaseVisitor) VisitListArg(ctx *baseparser.ListArgContext) interface{} {
 	listType := v.Visit(ctx.ListType()).(*types.ListType)
-	v.setLiteralTypeInContext(listType.Type)
-	defer v.clearLiteralTypeInContext()
+	return &CaseLiteral{Value: v.listLiteral(ctx.LiteralList(), listType), Type: listType}
+}
 
-	values := v.Visit(ctx.LiteralList()).([]expr.Literal)
+// listLiteral reads the elements of a list of the given type.
+func (v *TestCaseVisitor) listLiteral(ctx baseparser.ILiteralListContext, listType *types.ListType) expr.Literal {
+	outerType := v.getLiteralTypeInContext()
+	v.setLiteralTypeInContext(listType.Type)
+	defer v.setLiteralTypeInContext(outerType)
 
+	values := v.Visit(ctx).([]expr.Literal)
 	if len(values) == 0 {
-		value := expr.NewEmptyListLiteral(listType.Type, false)
-		return &CaseLiteral{Value: value, Type: listType}
-	}
-
-	value, err := literal.NewList(values, false)
-	if err != nil {
-		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid list arg %v", err))
+		return expr.NewEmptyListLiteral(listType.Type, listType.Nullability == types.NullabilityNullable)
 	}
-	return &CaseLiteral{Value: value, Type: listType}
+	return &expr.ListLiteral{Value: values, Type: listType}
 }
 
 func (v *TestCaseVisitor) VisitLiteralList(ctx *baseparser.LiteralListContext) interface{} {
@@ -782,44 +812,86 @@ func (v *TestCaseVisitor) VisitLiteralList(ctx *baseparser.LiteralListContext) i
 }
 
 func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) interface{} {
-	if ctx.Literal() != nil {
-		return v.Visit(ctx.Literal())
-	}
+	elementType := v.getLiteralTypeInContext()
 	if ctx.LiteralList() != nil {
-		// For nested lists like [[1,2],[3,4]]::list<list<i32>>, the parent context
-		// has the element type set to list<i32>. We need to unwrap one level so
-		// that inner literals resolve against i32 instead of list<i32>.
-		parentType := v.getLiteralTypeInContext()
-		if lt, ok := parentType.(*types.ListType); ok {
-			v.setLiteralTypeInContext(lt.Type)
-			defer v.setLiteralTypeInContext(parentType)
-		}
-
-		values := v.Visit(ctx.LiteralList()).([]expr.Literal)
-		if len(values) == 0 {
-			// For empty nested lists, use the element type from the parent list context
-			if elemType := v.getLiteralTypeInContext(); elemType != nil {
-				if lt, ok := elemType.(*types.ListType); ok {
-					return expr.NewEmptyListLiteral(lt.Type, false)
-				}
-			}
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("cannot determine element type for empty nested list"))
+		listType, ok := elementType.(*types.ListType)
+		if !ok {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("list %s is not a value of type %s", ctx.GetText(), elementType))
 			return nil
 		}
-		value, err := literal.NewList(values, false)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid nested list %v", err))
+		return v.listLiteral(ctx.LiteralList(), listType)
+	}
+	if ctx.Literal() == nil {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("unexpected list element type"))
+		return nil
+	}
+	if ctx.Literal().NullLiteral() != nil {
+		v.validateNullLiteralType(ctx, elementType)
+	}
+	value := v.visitTypedLiteral(ctx.Literal())
+	if value == nil {
+		return nil
+	}
+	var err error
+	nullable := elementType.GetNullability() == types.NullabilityNullable
+	switch elementType := elementType.(type) {
+	case *types.PrecisionTimestampType:
+		if text := ctx.Literal().TimestampLiteral(); text != nil {
+			value, err = literal.NewPrecisionTimestampFromString(elementType.Precision, getRawStringFromStringLiteral(text.GetText()), nullable)
 		}
+	case *types.PrecisionTimestampTzType:
+		if text := ctx.Literal().TimestampTzLiteral(); text != nil {
+			value, err = literal.NewPrecisionTimestampTzFromString(elementType.Precision, getRawStringFromStringLiteral(text.GetText()), nullable)
+		}
+	}
+	if err != nil {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid list element %v", err))
+		return nil
+	}
+	return value
+}
+
+// visitTypedLiteral reads a literal of the type in context and checks that it
+// is a value of that type. Without a type in context any literal is accepted.
+func (v *TestCaseVisitor) visitTypedLiteral(ctx baseparser.ILiteralContext) expr.Literal {
+	value, _ := v.Visit(ctx).(expr.Literal)
+	literalType := v.getLiteralTypeInContext()
+	if value == nil || literalType == nil || ctx.NullLiteral() != nil {
 		return value
 	}
-	v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("unexpected list element type"))
-	return nil
+	required := literalType.WithNullability(types.NullabilityRequired)
+	valueType := value.GetType().WithNullability(types.NullabilityRequired)
+	switch required.(type) {
+	case *types.PrecisionTimestampType:
+		// columns hold these values as timestamps
+		required = &types.TimestampType{Nullability: types.NullabilityRequired}
+	case *types.PrecisionTimestampTzType:
+		required = &types.TimestampTzType{Nullability: types.NullabilityRequired}
+	}
+	if !valueType.Equals(required) {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("%s is not a value of type %s", ctx.GetText(), literalType))
+		return nil
+	}
+	return value
+}
+
+// isStringType tells whether the values of the type are written as string literals.
+func isStringType(t types.Type) bool {
+	switch t.(type) {
+	case *types.StringType, *types.BinaryType, *types.FixedCharType, *types.FixedBinaryType, *types.VarCharType:
+		return true
+	}
+	return false
 }
 
 func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface{} {
 	nullable := false
 	if literalType := v.getLiteralTypeInContext(); literalType != nil {
 		nullable = literalType.GetNullability() == types.NullabilityNullable
+		if isStringType(literalType) && strings.HasPrefix(ctx.GetText(), "'") {
+			// a string may look like a date, time or interval
+			return v.getLiteralFromString(ctx, getRawStringFromStringLiteral(ctx.GetText()), literalType)
+		}
 	}
 	if ctx.BooleanLiteral() != nil {
 		flag := strings.ToLower(ctx.BooleanLiteral().GetText()) == "true"
@@ -835,6 +907,13 @@ func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface
 	}
 	if ctx.TimeLiteral() != nil {
 		timeStr := getRawStringFromStringLiteral(ctx.TimeLiteral().GetText())
+		if ptType, ok := v.getLiteralTypeInContext().(*types.PrecisionTimeType); ok {
+			value, err := literal.NewPrecisionTimeFromString(ptType.Precision, timeStr, nullable)
+			if err != nil {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid precision time arg %v", err))
+			}
+			return value
+		}
 		value, err := literal.NewTimeFromString(timeStr, nullable)
 		if err != nil {
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid time arg %v", err))
@@ -887,6 +966,9 @@ func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface
 			return literal.NewString(ctx.NumericLiteral().GetText(), false)
 		}
 		value := v.getLiteralFromString(ctx, ctx.NumericLiteral().GetText(), v.getLiteralTypeInContext())
+		if value == nil {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("%s is not a value of type %s", ctx.GetText(), v.getLiteralTypeInContext()))
+		}
 		return value
 	}
 
-- 
2.43.0


From d5d9314050c2ae6b0a035be1619430a758e398cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 063/118] fix: aggregate test cases refer to the columns of
 their arguments and type their scalar arguments

---
 testcases/parser/nodes.go   | 13 +++++++++----
 testcases/parser/visitor.go | 21 ++++++++++++++-------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 98050c5..6aac4e6 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -280,11 +281,15 @@ func (tc *TestCase) getAggregateFuncArgTypes() []types.Type {
 }
 
 func (tc *TestCase) getAggregateFuncTableSchema() []types.Type {
-	schemaTypes := make([]types.Type, len(tc.AggregateArgs))
-	for i, arg := range tc.AggregateArgs {
-		if !arg.IsScalar {
-			schemaTypes[i] = arg.ColumnType
+	schemaTypes := slices.Clone(tc.ColumnTypes)
+	for _, arg := range tc.AggregateArgs {
+		if arg.IsScalar {
+			continue
+		}
+		if missing := int(arg.ColumnIndex) + 1 - len(schemaTypes); missing > 0 {
+			schemaTypes = append(schemaTypes, make([]types.Type, missing)...)
 		}
+		schemaTypes[arg.ColumnIndex] = arg.ColumnType
 	}
 	return schemaTypes
 }
diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index fd3bcf7..cd62592 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -227,13 +227,14 @@ func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArgs(ctx *baseparser.Qualif
 func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArg(ctx *baseparser.QualifiedAggregateFuncArgContext) interface{} {
 	if ctx.Argument() != nil {
 		return &AggregateArgument{
-			Argument: v.Visit(ctx.Argument()).(*CaseLiteral),
+			Argument: v.visitArgument(ctx.Argument()),
 			IsScalar: true,
 		}
 	}
 	arg, err := newAggregateArgument(ctx.Identifier().GetText(), ctx.ColumnName().GetText(), nil)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid aggregate func arg %v", err))
+		return &AggregateArgument{}
 	}
 	return arg
 }
@@ -353,7 +354,7 @@ func (v *TestCaseVisitor) VisitAggregateFuncArgs(ctx *baseparser.AggregateFuncAr
 func (v *TestCaseVisitor) VisitAggregateFuncArg(ctx *baseparser.AggregateFuncArgContext) interface{} {
 	if ctx.Argument() != nil {
 		return &AggregateArgument{
-			Argument: v.Visit(ctx.Argument()).(*CaseLiteral),
+			Argument: v.visitArgument(ctx.Argument()),
 			IsScalar: true,
 		}
 	}
@@ -361,6 +362,7 @@ func (v *TestCaseVisitor) VisitAggregateFuncArg(ctx *baseparser.AggregateFuncArg
 	arg, err := newAggregateArgument("", ctx.ColumnName().GetText(), argType)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid aggregate func arg %v", err))
+		return &AggregateArgument{}
 	}
 	return arg
 }
@@ -399,15 +401,20 @@ func (v *TestCaseVisitor) VisitTestCase(ctx *baseparser.TestCaseContext) interfa
 func (v *TestCaseVisitor) VisitArguments(ctx *baseparser.ArgumentsContext) interface{} {
 	args := make([]*CaseLiteral, 0, len(ctx.AllArgument()))
 	for _, argument := range ctx.AllArgument() {
-		testArg := v.Visit(argument).(*CaseLiteral)
-		if err := testArg.updateLiteralType(); err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid argument %v", err))
-		}
-		args = append(args, testArg)
+		args = append(args, v.visitArgument(argument))
 	}
 	return args
 }
 
+// visitArgument reads an argument of a function, whose value gets the declared type.
+func (v *TestCaseVisitor) visitArgument(ctx baseparser.IArgumentContext) *CaseLiteral {
+	testArg := v.Visit(ctx).(*CaseLiteral)
+	if err := testArg.updateLiteralType(); err != nil {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid argument %v", err))
+	}
+	return testArg
+}
+
 func (v *TestCaseVisitor) VisitArgument(ctx *baseparser.ArgumentContext) interface{} {
 	if ctx.NullArg() != nil {
 		return v.Visit(ctx.NullArg())
-- 
2.43.0


From 85965a551e372507d8cd7c93fac9f6edf91bcbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 064/118] fix: test groups without a description, empty tables
 and the order of options in test cases

---
 testcases/parser/nodes.go   | 20 +++++++++++++-------
 testcases/parser/visitor.go | 12 ++++++++++--
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 6aac4e6..b61e289 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"maps"
 	"slices"
 	"strconv"
 	"strings"
@@ -210,7 +211,7 @@ func (tc *TestCase) needCompactAggregateFuncCall() bool {
 func (tc *TestCase) getAggregateFuncTableString() string {
 	var b strings.Builder
 	if len(tc.Columns) == 0 {
-		return ""
+		return "()"
 	}
 	b.WriteByte('(')
 	numRows := len(tc.Columns[0])
@@ -238,8 +239,8 @@ func (tc *TestCase) getOptionString() string {
 	var b strings.Builder
 	b.WriteString(" [")
 	var options []string
-	for k, v := range tc.Options {
-		options = append(options, fmt.Sprintf("%s:%s", k, v))
+	for _, name := range tc.Options.names() {
+		options = append(options, fmt.Sprintf("%s:%s", name, tc.Options[name]))
 	}
 	b.WriteString(strings.Join(options, ","))
 	b.WriteByte(']')
@@ -251,10 +252,10 @@ func (tc *TestCase) GetFunctionOptions() []*types.FunctionOption {
 		return nil
 	}
 	funcOptions := make([]*types.FunctionOption, 0)
-	for key, value := range tc.Options {
+	for _, name := range tc.Options.names() {
 		funcOptions = append(funcOptions, &types.FunctionOption{
-			Name:       key,
-			Preference: []string{value},
+			Name:       name,
+			Preference: []string{tc.Options[name]},
 		})
 	}
 	return funcOptions
@@ -426,7 +427,7 @@ func (tc *TestCase) GetAggregateColumnsData() ([][]expr.Literal, error) {
 		return nil, fmt.Errorf("expected function type %v, but got %v", AggregateFuncType, tc.FuncType)
 	}
 
-	if len(tc.Columns) > 0 {
+	if tc.needCompactAggregateFuncCall() {
 		return tc.Columns, nil
 	}
 
@@ -457,6 +458,11 @@ type TestFile struct {
 
 type FuncOptions map[string]string
 
+// names returns the names of the options in sorted order.
+func (o FuncOptions) names() []string {
+	return slices.Sorted(maps.Keys(o))
+}
+
 type AggregateArgument struct {
 	Argument    *CaseLiteral // This is used to store either a ScalarArgument or a ColumnArgument as List in the Value
 	TableName   string
diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index cd62592..c9848d7 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -97,7 +97,7 @@ func (v *TestCaseVisitor) VisitInclude(ctx *baseparser.IncludeContext) interface
 }
 
 func (v *TestCaseVisitor) VisitScalarFuncTestGroup(ctx *baseparser.ScalarFuncTestGroupContext) interface{} {
-	groupDesc := v.Visit(ctx.TestGroupDescription()).(string)
+	groupDesc := v.groupDescription(ctx.TestGroupDescription())
 	groupTestCases := make([]*TestCase, 0, len(ctx.AllTestCase()))
 	if v.testFuncType != ScalarFuncType {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("expected %v testcase based on test file header, but got scalar function testcase", v.testFuncType))
@@ -112,8 +112,16 @@ func (v *TestCaseVisitor) VisitScalarFuncTestGroup(ctx *baseparser.ScalarFuncTes
 	return groupTestCases
 }
 
+// groupDescription returns the description of a test group, which may have none.
+func (v *TestCaseVisitor) groupDescription(ctx baseparser.ITestGroupDescriptionContext) string {
+	if ctx == nil {
+		return ""
+	}
+	return v.Visit(ctx).(string)
+}
+
 func (v *TestCaseVisitor) VisitAggregateFuncTestGroup(ctx *baseparser.AggregateFuncTestGroupContext) interface{} {
-	groupDesc := v.Visit(ctx.TestGroupDescription()).(string)
+	groupDesc := v.groupDescription(ctx.TestGroupDescription())
 	groupTestCases := make([]*TestCase, 0, len(ctx.AllAggFuncTestCase()))
 	if v.testFuncType != AggregateFuncType {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("expected %v testcase based on test file header, but got aggregate function testcase", v.testFuncType))
-- 
2.43.0


From cbf2e8621f8a18e364b81a89ee191a645b000131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:16 +0000
Subject: [PATCH 065/118] fix: binary values of test cases are printed as the
 text they are read from

---
 testcases/parser/nodes.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index b61e289..79b3b44 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -68,6 +68,8 @@ func literalToString(literal expr.Literal) string {
 			elements[i] = literalToString(element)
 		}
 		return "[" + strings.Join(elements, ", ") + "]"
+	case *expr.ByteSliceLiteral[[]byte]:
+		return fmt.Sprintf("'%s'", stringEscaper.Replace(string(lit.Value)))
 	case types.IsoValuePrinter:
 		switch literal.GetType().(type) {
 		// for these types enclose in single quotes
-- 
2.43.0


From 520e04f671a22a4a550cd7dc9289772e72ac6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:45 +0000
Subject: [PATCH 066/118] fix: a function variant made from an ID keeps that
 ID, whatever its signature

---
 extensions/variants.go | 82 +++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index db5af3d..be99cba 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -320,6 +320,8 @@ func getFuncDefFromArgList(paramTypeList FuncParameterList) ([]types.FuncDefArgT
 	return out, nil
 }
 
+// parseFuncName splits a compound name into the function's name and its
+// parameters, if the signature names parameter types that can be parsed.
 func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	name, argsStr, _ := strings.Cut(compoundName, ":")
 	if len(argsStr) == 0 {
@@ -329,7 +331,8 @@ func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	for _, argStr := range splitArgs {
 		parsed, err := parser.ParseType(argStr)
 		if err != nil {
-			panic(err)
+			// not every signature can be turned back into parameters
+			return name, nil
 		}
 		exp := ValueArg{Name: name, Value: &parser.TypeExpression{ValueType: parsed}}
 		args = append(args, exp)
@@ -370,9 +373,10 @@ func maxArgumentCount(paramTypeList FuncParameterList, variadicBehavior *Variadi
 func NewScalarFuncVariant(id FunctionID) *ScalarFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &ScalarFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
-		impl: ScalarFunctionImpl{Args: args},
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
+		impl:         ScalarFunctionImpl{Args: args},
 	}
 }
 
@@ -382,8 +386,9 @@ func NewScalarFuncVariant(id FunctionID) *ScalarFunctionVariant {
 func NewScalarFuncVariantWithProps(id FunctionID, variadic *VariadicBehavior, sessionDependant, deterministic bool) *ScalarFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &ScalarFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: ScalarFunctionImpl{
 			Args:             args,
 			Variadic:         variadic,
@@ -394,11 +399,13 @@ func NewScalarFuncVariantWithProps(id FunctionID, variadic *VariadicBehavior, se
 }
 
 type ScalarFunctionVariant struct {
-	name        string
-	description string
-	urn         string
-	impl        ScalarFunctionImpl
-	metadata    map[string]any
+	name string
+	// compoundName is set if the variant was made from a function ID
+	compoundName string
+	description  string
+	urn          string
+	impl         ScalarFunctionImpl
+	metadata     map[string]any
 }
 
 func (s *ScalarFunctionVariant) Name() string                     { return s.name }
@@ -415,6 +422,9 @@ func (s *ScalarFunctionVariant) ResolveType(argumentTypes []types.Type, registry
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, declaredReturnType(s.impl.Return), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *ScalarFunctionVariant) CompoundName() string {
+	if s.compoundName != "" {
+		return s.compoundName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *ScalarFunctionVariant) ID() FunctionID {
@@ -446,8 +456,9 @@ func (s *ScalarFunctionVariant) MaxArgumentCount() int {
 func NewAggFuncVariant(id FunctionID) *AggregateFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &AggregateFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: AggregateFunctionImpl{
 			ScalarFunctionImpl: ScalarFunctionImpl{
 				Args: args,
@@ -490,8 +501,9 @@ func NewAggFuncVariantOpts(id FunctionID, opts AggVariantOptions) *AggregateFunc
 
 	simpleName, args := parseFuncName(id.Name)
 	return &AggregateFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: AggregateFunctionImpl{
 			ScalarFunctionImpl: ScalarFunctionImpl{
 				Args:             args,
@@ -508,11 +520,13 @@ func NewAggFuncVariantOpts(id FunctionID, opts AggVariantOptions) *AggregateFunc
 }
 
 type AggregateFunctionVariant struct {
-	name        string
-	description string
-	urn         string
-	impl        AggregateFunctionImpl
-	metadata    map[string]any
+	name string
+	// compoundName is set if the variant was made from a function ID
+	compoundName string
+	description  string
+	urn          string
+	impl         AggregateFunctionImpl
+	metadata     map[string]any
 }
 
 func (s *AggregateFunctionVariant) Name() string                     { return s.name }
@@ -529,6 +543,9 @@ func (s *AggregateFunctionVariant) ResolveType(argumentTypes []types.Type, regis
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, declaredReturnType(s.impl.Return), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *AggregateFunctionVariant) CompoundName() string {
+	if s.compoundName != "" {
+		return s.compoundName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *AggregateFunctionVariant) ID() FunctionID {
@@ -558,18 +575,21 @@ func (s *AggregateFunctionVariant) MaxArgumentCount() int {
 }
 
 type WindowFunctionVariant struct {
-	name        string
-	description string
-	urn         string
-	impl        WindowFunctionImpl
-	metadata    map[string]any
+	name string
+	// compoundName is set if the variant was made from a function ID
+	compoundName string
+	description  string
+	urn          string
+	impl         WindowFunctionImpl
+	metadata     map[string]any
 }
 
 func NewWindowFuncVariant(id FunctionID) *WindowFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &WindowFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: WindowFunctionImpl{
 			AggregateFunctionImpl: AggregateFunctionImpl{
 				ScalarFunctionImpl: ScalarFunctionImpl{Args: args},
@@ -617,8 +637,9 @@ func NewWindowFuncVariantOpts(id FunctionID, opts WindowVariantOpts) *WindowFunc
 
 	simpleName, args := parseFuncName(id.Name)
 	return &WindowFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: WindowFunctionImpl{
 			AggregateFunctionImpl: AggregateFunctionImpl{
 				ScalarFunctionImpl: ScalarFunctionImpl{
@@ -651,6 +672,9 @@ func (s *WindowFunctionVariant) ResolveType(argumentTypes []types.Type, registry
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, declaredReturnType(s.impl.Return), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *WindowFunctionVariant) CompoundName() string {
+	if s.compoundName != "" {
+		return s.compoundName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *WindowFunctionVariant) ID() FunctionID {
-- 
2.43.0


From 0235b6b01d6f3dc0b0a26ef619d22602cd486535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 067/118] fix: a custom aggregate function keeps its
 declaration

---
 expr/expression.go | 15 ++-------------
 expr/functions.go  | 17 +++++++++--------
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index df2dfcc..3bfdf82 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -82,7 +82,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 		decl, ok := reg.LookupScalarFunction(et.ScalarFunction.FunctionReference)
 		if !ok {
-			return NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), types.TypeFromProto(et.ScalarFunction.OutputType), et.ScalarFunction.Options, args...)
+			decl = extensions.NewScalarFuncVariant(id)
 		}
 
 		return &ScalarFunction{
@@ -125,18 +125,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}
 		decl, ok := reg.LookupWindowFunction(et.WindowFunction.FunctionReference)
 		if !ok {
-			fn, err := NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), types.TypeFromProto(et.WindowFunction.OutputType),
-				et.WindowFunction.Options, et.WindowFunction.Invocation, et.WindowFunction.Phase, args...)
-			if err != nil {
-				return nil, err
-			}
-
-			fn.Partitions = parts
-			fn.Sorts = sorts
-			fn.LowerBound = BoundFromProto(et.WindowFunction.LowerBound)
-			fn.BoundsType = et.WindowFunction.BoundsType
-			fn.UpperBound = BoundFromProto(et.WindowFunction.UpperBound)
-			return fn, nil
+			decl = extensions.NewWindowFuncVariant(id)
 		}
 
 		return &WindowFunction{
diff --git a/expr/functions.go b/expr/functions.go
index cd16c14..f9698f7 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -815,13 +815,14 @@ func NewCustomAggregateFunc(
 	}
 
 	return &AggregateFunction{
-		funcRef:    reg.GetFuncAnchor(v.ID()),
-		outputType: outputType,
-		options:    opts,
-		args:       args,
-		invocation: invoke,
-		phase:      phase,
-		Sorts:      sorts,
+		funcRef:     reg.GetFuncAnchor(v.ID()),
+		declaration: v,
+		outputType:  outputType,
+		options:     opts,
+		args:        args,
+		invocation:  invoke,
+		phase:       phase,
+		Sorts:       sorts,
 	}, nil
 }
 
@@ -853,7 +854,7 @@ func NewAggregateFunctionFromProto(
 	}
 	decl, ok := reg.LookupAggregateFunction(agg.FunctionReference)
 	if !ok {
-		return NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), types.TypeFromProto(agg.OutputType), agg.Options, agg.Invocation, agg.Phase, sorts, args...)
+		decl = extensions.NewAggFuncVariant(id)
 	}
 
 	return &AggregateFunction{
-- 
2.43.0


From da1dc5587d13bd3a2cf52e91c6e42f6231ab6ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:56 +0000
Subject: [PATCH 068/118] fix: decode a switch expression without an else

---
 expr/expression.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 3bfdf82..84ee743 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -171,9 +171,13 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, err
 		}
 
-		elseExpr, err := ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
-		if err != nil {
-			return nil, err
+		// the else expression of a switch is optional
+		var elseExpr Expression
+		if et.SwitchExpression.Else != nil {
+			elseExpr, err = ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		ifs := make([]struct {
-- 
2.43.0


From d48923853d0fc3e6b097dbdc02dbebc55f723772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:21 +0000
Subject: [PATCH 069/118] fix: resolve lambda parameter references when
 decoding, as the builder does

---
 expr/expression.go      |  3 +--
 expr/field_reference.go | 10 ++++++++++
 expr/utils.go           | 11 +++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 84ee743..d64d0a6 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -360,12 +360,11 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, fmt.Errorf("%w: lambda parameters struct must have NULLABILITY_REQUIRED", substraitgo.ErrInvalidExpr)
 		}
 
-		body, err := ExprFromProto(et.Lambda.Body, baseSchema, reg)
+		body, err := ExprFromProto(et.Lambda.Body, baseSchema, reg.withLambda(params))
 		if err != nil {
 			return nil, err
 		}
 
-		// TODO (#189): add validation and type resolution for lambda parameter references
 		return &Lambda{Parameters: params, Body: body}, nil
 	}
 	return nil, fmt.Errorf("%w: ExprFromProto: %s", substraitgo.ErrNotImplemented, e)
diff --git a/expr/field_reference.go b/expr/field_reference.go
index 362d7bd..8125906 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -794,6 +794,16 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 			if err != nil {
 				return nil, err
 			}
+		} else if lambdaRef, ok := root.(LambdaParameterReference); ok {
+			if uint64(lambdaRef.StepsOut) >= uint64(len(reg.lambdas)) {
+				return nil, fmt.Errorf("%w: lambda parameter reference %d steps out, but it is inside %d lambdas",
+					substraitgo.ErrInvalidExpr, lambdaRef.StepsOut, len(reg.lambdas))
+			}
+			params := reg.lambdas[len(reg.lambdas)-1-int(lambdaRef.StepsOut)]
+			knownType, err = refseg.GetType(params)
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		ref = refseg
diff --git a/expr/utils.go b/expr/utils.go
index 69ca42b..c9ef940 100644
--- a/expr/utils.go
+++ b/expr/utils.go
@@ -4,6 +4,7 @@ package expr
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/substrait-io/substrait-go/v8/extensions"
 	"github.com/substrait-io/substrait-go/v8/types"
@@ -38,6 +39,16 @@ type ExtensionRegistry struct {
 
 	// extensionRelDecoders maps type URLs to decoders for extension relation details.
 	extensionRelDecoders map[string]ExtensionRelDecoder
+
+	// lambdas holds the parameters of the lambdas enclosing the expression
+	// being decoded, outermost first.
+	lambdas []*types.StructType
+}
+
+// withLambda returns a registry for decoding the body of a lambda.
+func (e ExtensionRegistry) withLambda(params *types.StructType) ExtensionRegistry {
+	e.lambdas = append(slices.Clone(e.lambdas), params)
+	return e
 }
 
 // subqueryConverter converts subqueries and the Relations within from the native
-- 
2.43.0


From 128ba9a3fb971fc8b4c483b2bbecfa2caf01d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 070/118] fix: reject field references without a well-formed
 path

---
 expr/field_reference.go | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 8125906..0d8e9d8 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -48,26 +48,33 @@ type ReferenceSegment interface {
 	Equals(ReferenceSegment) bool
 }
 
+// RefSegmentFromProto decodes a reference segment. It returns nil for a
+// malformed one.
 func RefSegmentFromProto(p *proto.Expression_ReferenceSegment) ReferenceSegment {
 	if p == nil {
 		return nil
 	}
 
+	// a segment whose child is malformed is malformed itself, rather than a
+	// shorter path
+	childOf := func(c *proto.Expression_ReferenceSegment) (ReferenceSegment, bool) {
+		child := RefSegmentFromProto(c)
+		return child, c == nil || child != nil
+	}
+
 	switch seg := p.ReferenceType.(type) {
 	case *proto.Expression_ReferenceSegment_MapKey_:
-		return &MapKeyRef{
-			MapKey: LiteralFromProto(seg.MapKey.MapKey),
-			Child:  RefSegmentFromProto(seg.MapKey.Child),
+		key := LiteralFromProto(seg.MapKey.GetMapKey())
+		if child, ok := childOf(seg.MapKey.GetChild()); ok && key != nil {
+			return &MapKeyRef{MapKey: key, Child: child}
 		}
 	case *proto.Expression_ReferenceSegment_StructField_:
-		return &StructFieldRef{
-			Field: seg.StructField.Field,
-			Child: RefSegmentFromProto(seg.StructField.Child),
+		if child, ok := childOf(seg.StructField.GetChild()); ok {
+			return &StructFieldRef{Field: seg.StructField.GetField(), Child: child}
 		}
 	case *proto.Expression_ReferenceSegment_ListElement_:
-		return &ListElementRef{
-			Offset: seg.ListElement.Offset,
-			Child:  RefSegmentFromProto(seg.ListElement.Child),
+		if child, ok := childOf(seg.ListElement.GetChild()); ok {
+			return &ListElementRef{Offset: seg.ListElement.GetOffset(), Child: child}
 		}
 	}
 
@@ -767,22 +774,25 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		err       error
 	)
 
-	switch rt := p.RootType.(type) {
+	switch rt := p.GetRootType().(type) {
 	case *proto.Expression_FieldReference_Expression:
 		if root, err = ExprFromProto(rt.Expression, baseSchema, reg); err != nil {
 			return nil, err
 		}
 	case *proto.Expression_FieldReference_OuterReference_:
-		root = OuterReference(rt.OuterReference.StepsOut)
+		root = OuterReference(rt.OuterReference.GetStepsOut())
 	case *proto.Expression_FieldReference_RootReference_:
 		root = RootReference
 	case *proto.Expression_FieldReference_LambdaParameterReference_:
-		root = LambdaParameterReference{StepsOut: rt.LambdaParameterReference.StepsOut}
+		root = LambdaParameterReference{StepsOut: rt.LambdaParameterReference.GetStepsOut()}
 	}
 
-	switch rt := p.ReferenceType.(type) {
+	switch rt := p.GetReferenceType().(type) {
 	case *proto.Expression_FieldReference_DirectReference:
 		refseg := RefSegmentFromProto(rt.DirectReference)
+		if refseg == nil {
+			return nil, fmt.Errorf("%w: malformed reference segment: %s", substraitgo.ErrInvalidExpr, rt.DirectReference)
+		}
 		if root == RootReference && baseSchema != nil {
 			baseType := baseSchema.AsStructType()
 			knownType, err = refseg.GetType(baseType)
@@ -807,9 +817,10 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		}
 
 		ref = refseg
-
 	case *proto.Expression_FieldReference_MaskedReference:
 		ref = MaskExpressionFromProto(rt.MaskedReference)
+	default:
+		return nil, fmt.Errorf("%w: field reference without a direct or masked reference", substraitgo.ErrInvalidExpr)
 	}
 
 	return &FieldReference{Root: root, Reference: ref, knownType: knownType}, nil
-- 
2.43.0


From faaede8dab4956776e94861ea6efb3ffe6b8c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:21 +0000
Subject: [PATCH 071/118] fix: masks without a child selection, and malformed
 masks

---
 expr/field_reference.go | 109 ++++++++++++++++++++++++----------------
 1 file changed, 67 insertions(+), 42 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 0d8e9d8..849a06b 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -348,59 +348,85 @@ func (e *MaskExpression) Select() MaskStructSelect {
 	return slices.Clone(e.sel)
 }
 
+// MaskExpressionFromProto decodes a mask. It returns nil for a malformed one.
 func MaskExpressionFromProto(p *proto.Expression_MaskExpression) *MaskExpression {
-	sel := make(MaskStructSelect, len(p.Select.StructItems))
-	for i, item := range p.Select.StructItems {
-		sel[i].field = item.Field
-		if item.Child != nil {
-			sel[i].child = maskSelectFromProto(item.Child)
-		}
+	if p.GetSelect() == nil {
+		return nil
+	}
+	sel, ok := maskStructSelectFromProto(p.Select)
+	if !ok {
+		return nil
 	}
 	return &MaskExpression{sel: sel, maintainSingular: p.MaintainSingularStruct}
 }
 
-func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
+func maskStructSelectFromProto(p *proto.Expression_MaskExpression_StructSelect) (MaskStructSelect, bool) {
+	items := make(MaskStructSelect, len(p.GetStructItems()))
+	for i, item := range p.GetStructItems() {
+		child, ok := maskSelectFromProto(item.GetChild())
+		if !ok {
+			return nil, false
+		}
+		items[i] = MaskStructItem{field: item.GetField(), child: child}
+	}
+	return items, true
+}
+
+// maskSelectFromProto decodes a selection. It returns nil for a selection that
+// is not there and false for a malformed one.
+func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) (MaskSelect, bool) {
+	if p == nil {
+		return nil, true
+	}
+
 	switch s := p.Type.(type) {
 	case *proto.Expression_MaskExpression_Select_Struct:
-		items := make(MaskStructSelect, len(s.Struct.StructItems))
-		for i, item := range s.Struct.StructItems {
-			items[i].field = item.Field
-			if item.Child != nil {
-				items[i].child = maskSelectFromProto(item.Child)
-			}
-		}
-		return items
+		return maskStructSelectFromProto(s.Struct)
 	case *proto.Expression_MaskExpression_Select_List:
-		selection := make([]MaskListSelectItem, len(s.List.Selection))
-		for i, sel := range s.List.Selection {
-			switch s := sel.Type.(type) {
-			case *proto.Expression_MaskExpression_ListSelect_ListSelectItem_Item:
-				selection[i] = (*MaskListElement)(s.Item)
-			case *proto.Expression_MaskExpression_ListSelect_ListSelectItem_Slice:
-				selection[i] = (*MaskListSlice)(s.Slice)
+		selection := make([]MaskListSelectItem, len(s.List.GetSelection()))
+		for i, sel := range s.List.GetSelection() {
+			if item := sel.GetItem(); item != nil {
+				selection[i] = (*MaskListElement)(item)
+			} else if slice := sel.GetSlice(); slice != nil {
+				selection[i] = (*MaskListSlice)(slice)
+			} else {
+				return nil, false
 			}
 		}
-		return &MaskListSelect{
-			selection: selection,
-			child:     maskSelectFromProto(s.List.Child),
+
+		child, ok := maskSelectFromProto(s.List.GetChild())
+		if !ok {
+			return nil, false
 		}
+		return &MaskListSelect{selection: selection, child: child}, true
 	case *proto.Expression_MaskExpression_Select_Map:
-		var ret MaskMapSelect
-		if s.Map.Child != nil {
-			ret.child = maskSelectFromProto(s.Map.Child)
+		child, ok := maskSelectFromProto(s.Map.GetChild())
+		if !ok {
+			return nil, false
 		}
 
-		switch sk := s.Map.Select.(type) {
+		ret := &MaskMapSelect{child: child}
+		switch sk := s.Map.GetSelect().(type) {
 		case *proto.Expression_MaskExpression_MapSelect_Expression:
-			ret.key = sk.Expression.MapKeyExpression
+			ret.key = sk.Expression.GetMapKeyExpression()
 			ret.kind = MapSelectExpr
 		case *proto.Expression_MaskExpression_MapSelect_Key:
-			ret.key = sk.Key.MapKey
+			ret.key = sk.Key.GetMapKey()
 			ret.kind = MapSelectKey
+		default:
+			return nil, false
 		}
-		return &ret
+		return ret, true
 	}
-	panic("unimplemented mask select type")
+	return nil, false
+}
+
+// maskSelectToProto encodes the optional child of a selection.
+func maskSelectToProto(m MaskSelect) *proto.Expression_MaskExpression_Select {
+	if m == nil {
+		return nil
+	}
+	return m.ToProto()
 }
 
 type MaskSelect interface {
@@ -435,14 +461,9 @@ type MaskStructItem struct {
 func (m *MaskStructItem) Field() int32      { return m.field }
 func (m *MaskStructItem) Child() MaskSelect { return m.child }
 func (m *MaskStructItem) ToProto() *proto.Expression_MaskExpression_StructItem {
-	var childProto *proto.Expression_MaskExpression_Select
-	if m.child != nil {
-		childProto = m.child.ToProto()
-	}
-
 	return &proto.Expression_MaskExpression_StructItem{
 		Field: m.field,
-		Child: childProto,
+		Child: maskSelectToProto(m.child),
 	}
 }
 
@@ -461,7 +482,7 @@ func (m *MaskListSelect) ToProto() *proto.Expression_MaskExpression_Select {
 		Type: &proto.Expression_MaskExpression_Select_List{
 			List: &proto.Expression_MaskExpression_ListSelect{
 				Selection: selection,
-				Child:     m.child.ToProto(),
+				Child:     maskSelectToProto(m.child),
 			},
 		},
 	}
@@ -527,7 +548,7 @@ func (m *MaskMapSelect) Child() MaskSelect {
 func (m *MaskMapSelect) ToProto() *proto.Expression_MaskExpression_Select {
 	ret := &proto.Expression_MaskExpression_Select_Map{
 		Map: &proto.Expression_MaskExpression_MapSelect{
-			Child: m.child.ToProto(),
+			Child: maskSelectToProto(m.child),
 		},
 	}
 
@@ -818,7 +839,11 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 
 		ref = refseg
 	case *proto.Expression_FieldReference_MaskedReference:
-		ref = MaskExpressionFromProto(rt.MaskedReference)
+		mask := MaskExpressionFromProto(rt.MaskedReference)
+		if mask == nil {
+			return nil, fmt.Errorf("%w: malformed mask expression: %s", substraitgo.ErrInvalidExpr, rt.MaskedReference)
+		}
+		ref = mask
 	default:
 		return nil, fmt.Errorf("%w: field reference without a direct or masked reference", substraitgo.ErrInvalidExpr)
 	}
-- 
2.43.0


From 8b02f5218b883796738c05da3c948c35ab758ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:27 +0000
Subject: [PATCH 072/118] fix: field references with a mask can be printed and
 compared

---
 expr/field_reference.go | 92 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 90 insertions(+), 2 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 849a06b..aa9f83f 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -340,6 +340,91 @@ func (e *MaskExpression) ToProto() *proto.Expression_MaskExpression {
 	}
 }
 
+// String lists the selected fields, for example mask{0,2{1},3[0,4:9]}.
+func (e *MaskExpression) String() string {
+	s := "mask" + maskString(e.sel)
+	if e.maintainSingular {
+		s += "!"
+	}
+	return s
+}
+
+func maskString(m MaskSelect) string {
+	var b strings.Builder
+	switch m := m.(type) {
+	case MaskStructSelect:
+		b.WriteByte('{')
+		for i, item := range m {
+			if i > 0 {
+				b.WriteByte(',')
+			}
+			fmt.Fprintf(&b, "%d%s", item.field, maskString(item.child))
+		}
+		b.WriteByte('}')
+	case *MaskListSelect:
+		b.WriteByte('[')
+		for i, item := range m.selection {
+			if i > 0 {
+				b.WriteByte(',')
+			}
+			switch item := item.(type) {
+			case *MaskListElement:
+				fmt.Fprintf(&b, "%d", item.Field)
+			case *MaskListSlice:
+				fmt.Fprintf(&b, "%d:%d", item.Start, item.End)
+			}
+		}
+		b.WriteByte(']')
+		b.WriteString(maskString(m.child))
+	case *MaskMapSelect:
+		if m.kind == MapSelectKey {
+			fmt.Fprintf(&b, "[%q]", m.key)
+		} else {
+			fmt.Fprintf(&b, "[expr %q]", m.key)
+		}
+		b.WriteString(maskString(m.child))
+	}
+	return b.String()
+}
+
+// Equals returns true if both masks select the same.
+func (e *MaskExpression) Equals(rhs *MaskExpression) bool {
+	if e == nil || rhs == nil {
+		return e == rhs
+	}
+	return e.maintainSingular == rhs.maintainSingular && maskSelectEquals(e.sel, rhs.sel)
+}
+
+func maskSelectEquals(lhs, rhs MaskSelect) bool {
+	switch l := lhs.(type) {
+	case nil:
+		return rhs == nil
+	case MaskStructSelect:
+		r, ok := rhs.(MaskStructSelect)
+		return ok && slices.EqualFunc(l, r, func(a, b MaskStructItem) bool {
+			return a.field == b.field && maskSelectEquals(a.child, b.child)
+		})
+	case *MaskListSelect:
+		r, ok := rhs.(*MaskListSelect)
+		return ok && maskSelectEquals(l.child, r.child) &&
+			slices.EqualFunc(l.selection, r.selection, func(a, b MaskListSelectItem) bool {
+				switch a := a.(type) {
+				case *MaskListElement:
+					b, ok := b.(*MaskListElement)
+					return ok && a.Field == b.Field
+				case *MaskListSlice:
+					b, ok := b.(*MaskListSlice)
+					return ok && a.Start == b.Start && a.End == b.End
+				}
+				return false
+			})
+	case *MaskMapSelect:
+		r, ok := rhs.(*MaskMapSelect)
+		return ok && l.kind == r.kind && l.key == r.key && maskSelectEquals(l.child, r.child)
+	}
+	return false
+}
+
 func (e *MaskExpression) MaintainSingularStruct() bool {
 	return e.maintainSingular
 }
@@ -665,7 +750,10 @@ func (f *FieldReference) String() string {
 	if f.knownType != nil {
 		typ = " => " + f.knownType.String()
 	}
-	return b.String() + f.Reference.(ReferenceSegment).String() + typ
+	if ref, ok := f.Reference.(fmt.Stringer); ok {
+		b.WriteString(ref.String())
+	}
+	return b.String() + typ
 }
 
 func (f *FieldReference) ToProtoFuncArg() *proto.FunctionArgument {
@@ -770,7 +858,7 @@ func (f *FieldReference) Equals(rhs Expression) bool {
 				return false
 			}
 
-			return ref == rhs
+			return ref.Equals(rhs)
 		}
 	}
 
-- 
2.43.0


From 8435c63d5baa2946342867345f7472afa862c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:35 +0000
Subject: [PATCH 073/118] fix: reject a read with a malformed projection mask

---
 plan/relations.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plan/relations.go b/plan/relations.go
index 4f501c6..506c8dd 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -85,6 +85,9 @@ func (b *baseReadRel) fromProtoReadRel(rel *proto.ReadRel, reg expr.ExtensionReg
 
 	if rel.Projection != nil {
 		b.projection = expr.MaskExpressionFromProto(rel.Projection)
+		if b.projection == nil {
+			return fmt.Errorf("%w: malformed projection: %s", substraitgo.ErrInvalidRel, rel.Projection)
+		}
 	}
 
 	b.advExtension = rel.AdvancedExtension
-- 
2.43.0


From 9f3d04c3105ab58569f445378985d34065cdb60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 074/118] fix: visit if-then and switch expressions without an
 else

---
 expr/expression.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index d64d0a6..5a080e9 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -597,7 +597,10 @@ func (ex *IfThen) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	afterElse := visit(ex.elseClause)
+	afterElse := ex.elseClause
+	if afterElse != nil {
+		afterElse = visit(afterElse)
+	}
 	if out == nil {
 		if afterElse == ex.elseClause {
 			return ex
@@ -936,7 +939,11 @@ func (ex *SwitchExpr) Visit(visit VisitFunc) Expression {
 	}
 
 	for i, c := range ex.ifs {
-		afterIf := visit(c.If)
+		// the value of a case is always a literal
+		afterIf, ok := visit(c.If).(Literal)
+		if !ok {
+			afterIf = c.If
+		}
 		afterThen := visit(c.Then)
 
 		if out == nil && (afterIf != c.If || afterThen != c.Then) {
@@ -952,12 +959,15 @@ func (ex *SwitchExpr) Visit(visit VisitFunc) Expression {
 		}
 
 		if out != nil {
-			out.ifs[i].If = afterIf.(Literal)
+			out.ifs[i].If = afterIf
 			out.ifs[i].Then = afterThen
 		}
 	}
 
-	afterElse := visit(ex.elseClause)
+	afterElse := ex.elseClause
+	if afterElse != nil {
+		afterElse = visit(afterElse)
+	}
 	if out == nil {
 		if afterElse == ex.elseClause {
 			return ex
-- 
2.43.0


From bbe03ce28e08e4340c613217d4cd3af2497fcee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:53 +0000
Subject: [PATCH 075/118] fix: rewrite the options of a multi-or-list

---
 expr/expression.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 5a080e9..2d0860d 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1209,8 +1209,8 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 	}
 
 	for i, opts := range ex.Options {
-		if out != nil && len(out.Options[i]) == 0 {
-			out.Options[i] = make([]Expression, len(ex.Options[i]))
+		if out != nil {
+			out.Options[i] = slices.Clone(opts)
 		}
 
 		for j, o := range opts {
@@ -1221,13 +1221,9 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 					Value:   slices.Clone(ex.Value),
 					Options: make([][]Expression, len(ex.Options)),
 				}
-				for k := 0; k < i; k++ {
+				for k := 0; k <= i; k++ {
 					out.Options[k] = slices.Clone(ex.Options[k])
 				}
-
-				for k := 0; k < j; k++ {
-					out.Options[i][k] = ex.Options[i][k]
-				}
 			}
 
 			if out != nil {
-- 
2.43.0


From 4e4d624d8b115f115baa7701b75da128023ad410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:57 +0000
Subject: [PATCH 076/118] fix: visit the sort and partition expressions of a
 window function

---
 expr/functions.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index f9698f7..7e04c45 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -758,12 +758,42 @@ func (w *WindowFunction) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	if args == nil {
+	var sorts []SortField
+	for i, s := range w.Sorts {
+		after := visit(s.Expr)
+		if sorts == nil && after != s.Expr {
+			sorts = slices.Clone(w.Sorts)
+		}
+		if sorts != nil {
+			sorts[i].Expr = after
+		}
+	}
+
+	var partitions []Expression
+	for i, p := range w.Partitions {
+		after := visit(p)
+		if partitions == nil && after != p {
+			partitions = slices.Clone(w.Partitions)
+		}
+		if partitions != nil {
+			partitions[i] = after
+		}
+	}
+
+	if args == nil && sorts == nil && partitions == nil {
 		return w
 	}
 
 	out := *w
-	out.args = args
+	if args != nil {
+		out.args = args
+	}
+	if sorts != nil {
+		out.Sorts = sorts
+	}
+	if partitions != nil {
+		out.Partitions = partitions
+	}
 	return &out
 }
 
-- 
2.43.0


From 8e6caa42cdba995844ee82e60c03295019226057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:03 +0000
Subject: [PATCH 077/118] fix: compare argument counts, bounds types and
 missing else clauses

---
 expr/expression.go | 8 ++++----
 expr/functions.go  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 2d0860d..025409c 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -568,9 +568,9 @@ func (ex *IfThen) Equals(other Expression) bool {
 	}
 
 	switch {
-	case ex.elseClause != nil && !ex.elseClause.Equals(rhs.elseClause):
+	case (ex.elseClause == nil) != (rhs.elseClause == nil):
 		return false
-	case ex.elseClause != nil && rhs.elseClause == nil:
+	case ex.elseClause != nil && !ex.elseClause.Equals(rhs.elseClause):
 		return false
 	}
 
@@ -910,9 +910,9 @@ func (ex *SwitchExpr) Equals(other Expression) bool {
 	switch {
 	case !ex.match.Equals(rhs.match):
 		return false
-	case ex.elseClause != nil && !ex.elseClause.Equals(rhs.elseClause):
+	case (ex.elseClause == nil) != (rhs.elseClause == nil):
 		return false
-	case ex.elseClause == nil && rhs.elseClause != nil:
+	case ex.elseClause != nil && !ex.elseClause.Equals(rhs.elseClause):
 		return false
 	}
 
diff --git a/expr/functions.go b/expr/functions.go
index 7e04c45..7896ad7 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -423,10 +423,8 @@ func (s *ScalarFunction) Equals(rhs Expression) bool {
 		return false
 	}
 
-	for i := range s.args {
-		if !FuncArgsEqual(s.args[i], other.args[i]) {
-			return false
-		}
+	if !slices.EqualFunc(s.args, other.args, FuncArgsEqual) {
+		return false
 	}
 
 	return slices.EqualFunc(s.options, other.options, func(a, b *types.FunctionOption) bool {
@@ -651,6 +649,8 @@ func (w *WindowFunction) Equals(other Expression) bool {
 		return false
 	case w.phase != rhs.phase || w.invocation != rhs.invocation:
 		return false
+	case w.BoundsType != rhs.BoundsType:
+		return false
 	case w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
 		return false
 	case !slices.EqualFunc(w.options, rhs.options, func(l, r *types.FunctionOption) bool {
-- 
2.43.0


From 66ec6b152a7f60d29d10094e87fd26ddbdd4bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 078/118] fix: an expression made of parts of unknown type has
 no known type

---
 expr/expression.go | 19 ++++++++++++++++---
 expr/lambda.go     |  7 ++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 025409c..04aa9ce 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -394,7 +394,8 @@ type Expression interface {
 	RootRefType
 
 	IsScalar() bool
-	// GetType returns the output type of this expression
+	// GetType returns the output type of this expression. It is nil when
+	// the type is not known, as for a reference into an outer query.
 	GetType() types.Type
 	// ToProto converts this Expression and its arguments
 	// to the equivalent Protobuf objects.
@@ -852,7 +853,9 @@ func (ex *SwitchExpr) IsScalar() bool {
 func (ex *SwitchExpr) GetType() types.Type {
 	var t types.Type
 	for _, cond := range ex.ifs {
-		t = cond.Then.GetType()
+		if t = cond.Then.GetType(); t == nil {
+			return nil
+		}
 		// check if any of the branches return a nullable type
 		// only return a non-nullable if *all* branches return
 		// non-nullable
@@ -1300,6 +1303,10 @@ func (ex *MapExpr) GetType() types.Type {
 	// there *should* be at least one element in the keyvalues,
 	// otherwise an EmptyMap literal should be used in order
 	// to ensure type information is not lost
+	if ex.KeyValues[0].Key.GetType() == nil || ex.KeyValues[0].Value.GetType() == nil {
+		return nil
+	}
+
 	return &types.MapType{
 		Nullability:      getNullability(ex.Nullable),
 		TypeVariationRef: ex.TypeVariationRef,
@@ -1425,7 +1432,9 @@ func (ex *StructExpr) IsScalar() bool {
 func (ex *StructExpr) GetType() types.Type {
 	typs := make([]types.Type, len(ex.Fields))
 	for i, f := range ex.Fields {
-		typs[i] = f.GetType()
+		if typs[i] = f.GetType(); typs[i] == nil {
+			return nil
+		}
 	}
 	return &types.StructType{
 		Nullability:      getNullability(ex.Nullable),
@@ -1542,6 +1551,10 @@ func (ex *ListExpr) IsScalar() bool {
 }
 
 func (ex *ListExpr) GetType() types.Type {
+	if ex.Values[0].GetType() == nil {
+		return nil
+	}
+
 	return &types.ListType{
 		Nullability:      getNullability(ex.Nullable),
 		TypeVariationRef: ex.TypeVariationRef,
diff --git a/expr/lambda.go b/expr/lambda.go
index 093ee07..0944584 100644
--- a/expr/lambda.go
+++ b/expr/lambda.go
@@ -35,10 +35,15 @@ func (l *Lambda) IsScalar() bool {
 }
 
 func (l *Lambda) GetType() types.Type {
+	ret := l.Body.GetType()
+	if ret == nil {
+		return nil
+	}
+
 	return &types.FuncType{
 		Nullability:    types.NullabilityRequired,
 		ParameterTypes: l.Parameters.Types,
-		ReturnType:     l.Body.GetType(),
+		ReturnType:     ret,
 	}
 }
 
-- 
2.43.0


From c9564d96d56c0873cdf9ed729013da061d8eac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:50 +0000
Subject: [PATCH 079/118] fix: decode relations without a common part and with
 an empty output mapping

---
 plan/common.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/plan/common.go b/plan/common.go
index 6890c0d..496e1ca 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -131,12 +131,18 @@ type RelCommon struct {
 	advExtension *extensions.AdvancedExtension
 }
 
+// fromProtoCommon reads the common fields, which default to a direct output
+// if there are none.
 func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
-	rc.hint = c.Hint
-	rc.advExtension = c.AdvancedExtension
+	rc.hint = c.GetHint()
+	rc.advExtension = c.GetAdvancedExtension()
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
-		rc.mapping = emit.Emit.OutputMapping
+		rc.mapping = emit.Emit.GetOutputMapping()
+		if rc.mapping == nil {
+			// an empty mapping, which has no columns, is not a direct output
+			rc.mapping = []int32{}
+		}
 	} else {
 		rc.mapping = nil
 	}
-- 
2.43.0


From cd6501e2d54628780380689fce8367ca180a66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:24 +0000
Subject: [PATCH 080/118] fix: check output mappings of decoded relations and
 give writes of unspecified output mode no columns

---
 plan/plan.go      | 104 ++++++++++++++++++++++++++++++++++------------
 plan/relations.go |   8 +---
 plan/subquery.go  |   8 ++--
 3 files changed, 84 insertions(+), 36 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index 8dee843..98b0eb1 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -321,20 +321,26 @@ func validateRootNamesForSchema(recordType types.RecordType, names []string) err
 // have incomplete implementations that panic or guess.
 // TODO(#210): remove this once RecordType() is fixed for all relation types.
 func isRecordTypeSupported(rel Rel) bool {
+	if _, ok := rel.(*NamedTableWriteRel); ok {
+		return false // TODO(#210): panics when outputMode is unspecified
+	}
+	return !isUndecodedExtension(rel)
+}
+
+// isUndecodedExtension reports whether the relation is an extension nobody
+// decoded, so that its schema is a guess.
+func isUndecodedExtension(rel Rel) bool {
+	var def ExtensionRelDefinition
 	switch r := rel.(type) {
 	case *ExtensionSingleRel:
-		_, undecoded := r.Definition().(*UndecodedExtension)
-		return !undecoded
+		def = r.Definition()
 	case *ExtensionLeafRel:
-		_, undecoded := r.Definition().(*UndecodedExtension)
-		return !undecoded
+		def = r.Definition()
 	case *ExtensionMultiRel:
-		_, undecoded := r.Definition().(*UndecodedExtension)
-		return !undecoded
-	case *NamedTableWriteRel:
-		return false // TODO(#210): panics when outputMode is unspecified
+		def = r.Definition()
 	}
-	return true
+	_, undecoded := def.(*UndecodedExtension)
+	return undecoded
 }
 
 // Root is a relation with output field names.
@@ -450,7 +456,53 @@ func decodeExtensionDef(reg expr.ExtensionRegistry, detail *anypb.Any) (Extensio
 	return &UndecodedExtension{detail: detail}, nil
 }
 
+// RelFromProto decodes a relation. An output mapping has to refer to columns
+// the relation has, unless these are those of an UndecodedExtension, which are
+// not known.
 func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
+	out, err := relFromProto(rel, reg)
+	if err != nil {
+		return nil, err
+	}
+	if !isUndecodedExtension(out) {
+		if err := validateOutputMapping(out); err != nil {
+			return nil, err
+		}
+	}
+	return out, nil
+}
+
+// inputFromProto decodes a relation which another one makes use of.
+func inputFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
+	out, err := RelFromProto(rel, reg)
+	if err != nil {
+		return nil, err
+	}
+	if isUndecodedExtension(out) {
+		if err := validateOutputMapping(out); err != nil {
+			return nil, err
+		}
+	}
+	return out, nil
+}
+
+// validateOutputMapping checks that the relation has the columns that its
+// output mapping refers to.
+func validateOutputMapping(rel Rel) error {
+	mapping := rel.OutputMapping()
+	if len(mapping) == 0 {
+		return nil
+	}
+	direct := rel.directOutputSchema()
+	for _, idx := range mapping {
+		if idx < 0 || idx >= direct.FieldCount() {
+			return fmt.Errorf("%w: output mapping refers to column %d of %d", substraitgo.ErrInvalidRel, idx, direct.FieldCount())
+		}
+	}
+	return nil
+}
+
+func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 	switch rel := rel.RelType.(type) {
 	case *proto.Rel_Read:
 		var out ReadRel
@@ -527,7 +579,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Filter:
-		input, err := RelFromProto(rel.Filter.Input, reg)
+		input, err := inputFromProto(rel.Filter.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to FilterRel: %w", err)
 		}
@@ -548,7 +600,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		}
 		return out, nil
 	case *proto.Rel_Fetch:
-		input, err := RelFromProto(rel.Fetch.Input, reg)
+		input, err := inputFromProto(rel.Fetch.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to FetchRel: %w", err)
 		}
@@ -578,7 +630,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		}
 		return out, nil
 	case *proto.Rel_Aggregate:
-		input, err := RelFromProto(rel.Aggregate.Input, reg)
+		input, err := inputFromProto(rel.Aggregate.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to AggregateRel: %w", err)
 		}
@@ -637,7 +689,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.Aggregate.Common)
 		return out, nil
 	case *proto.Rel_Sort:
-		input, err := RelFromProto(rel.Sort.Input, reg)
+		input, err := inputFromProto(rel.Sort.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to SortRel: %w", err)
 		}
@@ -667,12 +719,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			return nil, fmt.Errorf("%w: JoinRel must not have unspecified join type", substraitgo.ErrInvalidRel)
 		}
 
-		left, err := RelFromProto(rel.Join.Left, reg)
+		left, err := inputFromProto(rel.Join.Left, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to JoinRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.Join.Right, reg)
+		right, err := inputFromProto(rel.Join.Right, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to JoinRel: %w", err)
 		}
@@ -700,7 +752,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Project:
-		input, err := RelFromProto(rel.Project.Input, reg)
+		input, err := inputFromProto(rel.Project.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to ProjectRel: %w", err)
 		}
@@ -737,7 +789,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		var err error
 		for i, r := range rel.Set.Inputs {
-			inputs[i], err = RelFromProto(r, reg)
+			inputs[i], err = inputFromProto(r, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting input %d for SetRel: %w", i, err)
 			}
@@ -765,7 +817,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_ExtensionSingle:
-		input, err := RelFromProto(rel.ExtensionSingle.Input, reg)
+		input, err := inputFromProto(rel.ExtensionSingle.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to ExtensionSingle: %w", err)
 		}
@@ -785,7 +837,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		inputs := make([]Rel, len(rel.ExtensionMulti.Inputs))
 		var err error
 		for i, r := range rel.ExtensionMulti.Inputs {
-			inputs[i], err = RelFromProto(r, reg)
+			inputs[i], err = inputFromProto(r, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting input %d for ExtensionMultiRel: %w", i, err)
 			}
@@ -814,12 +866,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Cross:
-		left, err := RelFromProto(rel.Cross.Left, reg)
+		left, err := inputFromProto(rel.Cross.Left, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to CrossRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.Cross.Right, reg)
+		right, err := inputFromProto(rel.Cross.Right, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to CrossRel: %w", err)
 		}
@@ -832,12 +884,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.Cross.Common)
 		return out, nil
 	case *proto.Rel_HashJoin:
-		left, err := RelFromProto(rel.HashJoin.Left, reg)
+		left, err := inputFromProto(rel.HashJoin.Left, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to HashJoinRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.HashJoin.Right, reg)
+		right, err := inputFromProto(rel.HashJoin.Right, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to HashJoin: %w", err)
 		}
@@ -869,12 +921,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_MergeJoin:
-		left, err := RelFromProto(rel.MergeJoin.Left, reg)
+		left, err := inputFromProto(rel.MergeJoin.Left, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to MergeJoinRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.MergeJoin.Right, reg)
+		right, err := inputFromProto(rel.MergeJoin.Right, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to MergeJoinRel: %w", err)
 		}
@@ -906,7 +958,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Write:
-		input, err := RelFromProto(rel.Write.Input, reg)
+		input, err := inputFromProto(rel.Write.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to WriteRel: %w", err)
 		}
diff --git a/plan/relations.go b/plan/relations.go
index 506c8dd..7b49277 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2284,14 +2284,10 @@ type NamedTableWriteRel struct {
 }
 
 func (wr *NamedTableWriteRel) directOutputSchema() types.RecordType {
-	switch wr.outputMode {
-	case OutputModeNoOutput:
-		return types.RecordType{}
-	case OutputModeModifiedRecords:
+	if wr.outputMode == OutputModeModifiedRecords {
 		return *types.NewRecordTypeFromStruct(wr.tableSchema.Struct)
-	case OutputModeUnspecified:
-		panic("output mode not specified")
 	}
+	// there is no output if the mode asks for none or is not specified
 	return types.RecordType{}
 }
 
diff --git a/plan/subquery.go b/plan/subquery.go
index 02516ec..98c2f8a 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -23,7 +23,7 @@ type ExpressionConverter struct {
 func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery, baseSchema *types.RecordType, reg expr.ExtensionRegistry) (expr.Expression, error) {
 	switch subType := sub.SubqueryType.(type) {
 	case *proto.Expression_Subquery_Scalar_:
-		rel, err := RelFromProto(subType.Scalar.Input, reg)
+		rel, err := inputFromProto(subType.Scalar.Input, reg)
 		if err != nil {
 			return nil, err
 		}
@@ -39,7 +39,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 			needles[i] = expr
 		}
 
-		rel, err := RelFromProto(subType.InPredicate.Haystack, reg)
+		rel, err := inputFromProto(subType.InPredicate.Haystack, reg)
 		if err != nil {
 			return nil, err
 		}
@@ -47,7 +47,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		return NewInPredicateSubquery(needles, rel), nil
 
 	case *proto.Expression_Subquery_SetPredicate_:
-		tuples, err := RelFromProto(subType.SetPredicate.Tuples, reg)
+		tuples, err := inputFromProto(subType.SetPredicate.Tuples, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error parsing tuples in set predicate: %w", err)
 		}
@@ -58,7 +58,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 			return nil, fmt.Errorf("error parsing left expression in set comparison: %w", err)
 		}
 
-		right, err := RelFromProto(subType.SetComparison.Right, reg)
+		right, err := inputFromProto(subType.SetComparison.Right, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error parsing right relation in set comparison: %w", err)
 		}
-- 
2.43.0


From bf9fb60b2e28336c3ab71090e4c1194f997beae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:32 +0000
Subject: [PATCH 081/118] fix: concatenating record types copies their fields

---
 types/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/types.go b/types/types.go
index 1073c66..2ba1884 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1816,7 +1816,8 @@ func (r RecordType) Types() []Type {
 }
 
 func (r RecordType) Concat(other RecordType) RecordType {
-	return RecordType{types: append(r.Types(), other.Types()...)}
+	out := make([]Type, 0, len(r.types)+len(other.types))
+	return RecordType{types: append(append(out, r.types...), other.types...)}
 }
 
 func (d Date) ToTimeString() string {
-- 
2.43.0


From a69598415e53ee6d707bda325d1e19abe568469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 082/118] fix: derive the schema of hash, merge and mark joins
 from their type

---
 plan/plan.go      |   4 +-
 plan/relations.go | 108 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 81 insertions(+), 31 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index 98b0eb1..129a94c 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -912,7 +912,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.HashJoin.Common)
 
 		if rel.HashJoin.PostJoinFilter != nil {
-			base := out.RecordType()
+			base := out.joinedRecordType()
 			out.postJoinFilter, err = expr.ExprFromProto(rel.HashJoin.PostJoinFilter, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for HashJoinRel: %w", err)
@@ -949,7 +949,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.MergeJoin.Common)
 
 		if rel.MergeJoin.PostJoinFilter != nil {
-			base := out.RecordType()
+			base := out.joinedRecordType()
 			out.postJoinFilter, err = expr.ExprFromProto(rel.MergeJoin.PostJoinFilter, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for MergeJoin: %w", err)
diff --git a/plan/relations.go b/plan/relations.go
index 7b49277..1e19bcd 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -809,6 +809,8 @@ const (
 	JoinTypeRightSemi   = proto.JoinRel_JOIN_TYPE_RIGHT_SEMI
 	JoinTypeRightAnti   = proto.JoinRel_JOIN_TYPE_RIGHT_ANTI
 	JoinTypeRightSingle = proto.JoinRel_JOIN_TYPE_RIGHT_SINGLE
+	JoinTypeLeftMark    = proto.JoinRel_JOIN_TYPE_LEFT_MARK
+	JoinTypeRightMark   = proto.JoinRel_JOIN_TYPE_RIGHT_MARK
 )
 
 // JoinRel is a binary Join relational operator representing left-join-right,
@@ -823,41 +825,44 @@ type JoinRel struct {
 	advExtension   *extensions.AdvancedExtension
 }
 
-func (j *JoinRel) directOutputSchema() types.RecordType {
-	var typeList []types.Type
-	switch j.joinType {
-	case JoinTypeInner:
-		return j.JoinedRecordType()
-	case JoinTypeLeftSemi:
-		return j.left.RecordType()
+// nullableTypes returns nullable versions of the given types.
+func nullableTypes(in []types.Type) []types.Type {
+	out := make([]types.Type, len(in))
+	for i, t := range in {
+		out[i] = t.WithNullability(types.NullabilityNullable)
+	}
+	return out
+}
+
+// joinOutputSchema returns the output of a join of the given type before any
+// mapping is applied.
+func joinOutputSchema(joinType JoinType, left, right types.RecordType) types.RecordType {
+	nullable := func(r types.RecordType) types.RecordType {
+		return *types.NewRecordTypeFromTypes(nullableTypes(r.Types()))
+	}
+	mark := *types.NewRecordTypeFromTypes([]types.Type{&types.BooleanType{Nullability: types.NullabilityNullable}})
+
+	switch joinType {
 	case JoinTypeOuter:
-		typeList = j.JoinedRecordType().Types()
-		for i, t := range typeList {
-			typeList[i] = t.WithNullability(types.NullabilityNullable)
-		}
+		return nullable(left).Concat(nullable(right))
 	case JoinTypeLeft, JoinTypeLeftSingle:
-		left := j.left.RecordType()
-		right := j.right.RecordType()
-		typeList = make([]types.Type, 0, left.FieldCount()+right.FieldCount())
-		typeList = append(typeList, left.Types()...)
-		for _, r := range right.Types() {
-			typeList = append(typeList, r.WithNullability(types.NullabilityNullable))
-		}
+		return left.Concat(nullable(right))
 	case JoinTypeRight, JoinTypeRightSingle:
-		left := j.left.RecordType()
-		right := j.right.RecordType()
-		typeList = make([]types.Type, 0, left.FieldCount()+right.FieldCount())
-		for _, l := range left.Types() {
-			typeList = append(typeList, l.WithNullability(types.NullabilityNullable))
-		}
-		typeList = append(typeList, right.Types()...)
-	case JoinTypeLeftAnti:
-		typeList = j.left.RecordType().Types()
+		return nullable(left).Concat(right)
+	case JoinTypeLeftSemi, JoinTypeLeftAnti:
+		return left
 	case JoinTypeRightSemi, JoinTypeRightAnti:
-		return j.right.RecordType()
+		return right
+	case JoinTypeLeftMark:
+		return left.Concat(mark)
+	case JoinTypeRightMark:
+		return right.Concat(mark)
 	}
+	return left.Concat(right)
+}
 
-	return *types.NewRecordTypeFromTypes(typeList)
+func (j *JoinRel) directOutputSchema() types.RecordType {
+	return joinOutputSchema(j.joinType, j.left.RecordType(), j.right.RecordType())
 }
 
 func (j *JoinRel) RecordType() types.RecordType {
@@ -1821,8 +1826,43 @@ const (
 	HashMergeRightSemi
 	HashMergeLeftAnti
 	HashMergeRightAnti
+	HashMergeLeftSingle
+	HashMergeRightSingle
+	HashMergeLeftMark
+	HashMergeRightMark
 )
 
+// joinType returns the type of the logical join with the same output.
+func (t HashMergeJoinType) joinType() JoinType {
+	switch t {
+	case HashMergeInner:
+		return JoinTypeInner
+	case HashMergeOuter:
+		return JoinTypeOuter
+	case HashMergeLeft:
+		return JoinTypeLeft
+	case HashMergeRight:
+		return JoinTypeRight
+	case HashMergeLeftSemi:
+		return JoinTypeLeftSemi
+	case HashMergeRightSemi:
+		return JoinTypeRightSemi
+	case HashMergeLeftAnti:
+		return JoinTypeLeftAnti
+	case HashMergeRightAnti:
+		return JoinTypeRightAnti
+	case HashMergeLeftSingle:
+		return JoinTypeLeftSingle
+	case HashMergeRightSingle:
+		return JoinTypeRightSingle
+	case HashMergeLeftMark:
+		return JoinTypeLeftMark
+	case HashMergeRightMark:
+		return JoinTypeRightMark
+	}
+	return JoinTypeUnspecified
+}
+
 // SimpleComparisonType describes one of the predefined comparison behaviors
 // used by a ComparisonJoinKey.
 type SimpleComparisonType = proto.ComparisonJoinKey_SimpleComparisonType
@@ -2029,6 +2069,11 @@ type HashJoinRel struct {
 }
 
 func (hr *HashJoinRel) directOutputSchema() types.RecordType {
+	return joinOutputSchema(hr.joinType.joinType(), hr.left.RecordType(), hr.right.RecordType())
+}
+
+// joinedRecordType is the schema that the post join filter refers to.
+func (hr *HashJoinRel) joinedRecordType() types.RecordType {
 	return hr.left.RecordType().Concat(hr.right.RecordType())
 }
 
@@ -2146,6 +2191,11 @@ type MergeJoinRel struct {
 }
 
 func (mr *MergeJoinRel) directOutputSchema() types.RecordType {
+	return joinOutputSchema(mr.joinType.joinType(), mr.left.RecordType(), mr.right.RecordType())
+}
+
+// joinedRecordType is the schema that the post join filter refers to.
+func (mr *MergeJoinRel) joinedRecordType() types.RecordType {
 	return mr.left.RecordType().Concat(mr.right.RecordType())
 }
 
-- 
2.43.0


From 4127f76bb4682604a991f7f35fd1f259b015ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 083/118] fix: let the inputs of set relations differ in
 nullability and derive that of the output

---
 plan/builders.go  |  2 +-
 plan/plan.go      |  2 +-
 plan/relations.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index b63af38..bde0ac4 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -736,7 +736,7 @@ func (b *builder) SetRemap(op SetOp, remap []int32, inputs ...Rel) (*SetRel, err
 
 	for _, in := range inputs[1:] {
 		t := in.RecordType()
-		if !output.Equals(&t) {
+		if !sameFieldTypes(output, t) {
 			return nil, fmt.Errorf("%w: mismatched column types in set relation, %s vs %s",
 				substraitgo.ErrInvalidRel, &output, &t)
 		}
diff --git a/plan/plan.go b/plan/plan.go
index 129a94c..9464b6a 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -802,7 +802,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		primary := inputs[0].RecordType()
 		for i, in := range inputs[1:] {
 			t := in.RecordType()
-			if !t.Equals(&primary) {
+			if !sameFieldTypes(t, primary) {
 				return nil, fmt.Errorf("%w: set operation field mismatch found in input #%d, expected %s, got %s",
 					substraitgo.ErrInvalidRel, i+1, &primary, &t)
 			}
diff --git a/plan/relations.go b/plan/relations.go
index 1e19bcd..c6555ea 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1513,7 +1513,57 @@ type SetRel struct {
 	advExtension *extensions.AdvancedExtension
 }
 
-func (s *SetRel) directOutputSchema() types.RecordType { return s.inputs[0].RecordType() }
+// directOutputSchema returns the columns of the inputs. Where these differ in
+// nullability the operation determines that of the output.
+func (s *SetRel) directOutputSchema() types.RecordType {
+	primary := s.inputs[0].RecordType()
+	secondary := make([]types.RecordType, len(s.inputs)-1)
+	for i, in := range s.inputs[1:] {
+		secondary[i] = in.RecordType()
+	}
+
+	out := make([]types.Type, primary.FieldCount())
+	for i, t := range primary.Types() {
+		secondaryAny, secondaryAll := false, true
+		for _, in := range secondary {
+			if int32(i) < in.FieldCount() && in.GetFieldRef(int32(i)).GetNullability() == types.NullabilityNullable {
+				secondaryAny = true
+			} else {
+				secondaryAll = false
+			}
+		}
+
+		isNullable := t.GetNullability() == types.NullabilityNullable
+		outNullable := isNullable
+		switch s.op {
+		case proto.SetRel_SET_OP_INTERSECTION_PRIMARY:
+			outNullable = isNullable && secondaryAny
+		case proto.SetRel_SET_OP_INTERSECTION_MULTISET, proto.SetRel_SET_OP_INTERSECTION_MULTISET_ALL:
+			outNullable = isNullable && secondaryAll
+		case proto.SetRel_SET_OP_UNION_DISTINCT, proto.SetRel_SET_OP_UNION_ALL:
+			outNullable = isNullable || secondaryAny
+		}
+
+		switch {
+		case outNullable == isNullable:
+			out[i] = t
+		case outNullable:
+			out[i] = t.WithNullability(types.NullabilityNullable)
+		default:
+			out[i] = t.WithNullability(types.NullabilityRequired)
+		}
+	}
+	return *types.NewRecordTypeFromTypes(out)
+}
+
+// sameFieldTypes reports whether the fields of two records have the same types
+// except for their nullability.
+func sameFieldTypes(a, b types.RecordType) bool {
+	return slices.EqualFunc(a.Types(), b.Types(), func(x, y types.Type) bool {
+		return x.WithNullability(types.NullabilityNullable).Equals(y.WithNullability(types.NullabilityNullable))
+	})
+}
+
 func (s *SetRel) RecordType() types.RecordType {
 	return s.remap(s.directOutputSchema())
 }
-- 
2.43.0


From 7d10480751c5cc01b2fb4bc81591ad335774e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:55 +0000
Subject: [PATCH 084/118] fix: derive the schema of aggregates with several
 grouping sets and check their references

---
 plan/plan.go      | 13 +++++++++++++
 plan/relations.go | 27 ++++++++++++++++++++++-----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index 9464b6a..921eeae 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -652,6 +652,10 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		} else { // support old style grouping for backward compatibility
 			groups := make([][]expr.Expression, len(rel.Aggregate.Groupings))
 			for i, g := range rel.Aggregate.Groupings {
+				if len(g.GroupingExpressions) == 0 && len(g.ExpressionReferences) > 0 {
+					return nil, fmt.Errorf("%w: grouping set %d of AggregateRel refers to expressions that are not there",
+						substraitgo.ErrInvalidRel, i)
+				}
 				groups[i] = make([]expr.Expression, len(g.GroupingExpressions))
 				for j, e := range g.GroupingExpressions {
 					groups[i][j], err = expr.ExprFromProto(e, &base, reg)
@@ -664,6 +668,15 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			groupingExpressions, groupingReferences = groupingExprs(groups)
 		}
 
+		for _, g := range groupingReferences {
+			for _, ref := range g {
+				if ref >= uint32(len(groupingExpressions)) {
+					return nil, fmt.Errorf("%w: grouping set of AggregateRel refers to expression %d of %d",
+						substraitgo.ErrInvalidRel, ref, len(groupingExpressions))
+				}
+			}
+		}
+
 		measures := make([]AggRelMeasure, len(rel.Aggregate.Measures))
 		for i, m := range rel.Aggregate.Measures {
 			measures[i].measure, err = expr.NewAggregateFunctionFromProto(m.Measure, &base, reg)
diff --git a/plan/relations.go b/plan/relations.go
index c6555ea..7dedd64 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1143,11 +1143,23 @@ type AggregateRel struct {
 }
 
 func (ar *AggregateRel) directOutputSchema() types.RecordType {
-	groupTypes := make([]types.Type, 0, len(ar.groupingReferences)+len(ar.measures))
-	for _, g := range ar.groupingReferences {
-		for _, e := range g {
-			expression := ar.groupingExpressions[e]
-			groupTypes = append(groupTypes, expression.GetType())
+	groupTypes := make([]types.Type, 0, len(ar.groupingExpressions)+len(ar.measures)+1)
+	for i, e := range ar.groupingExpressions {
+		nsets := 0
+		for _, g := range ar.groupingReferences {
+			if slices.Contains(g, uint32(i)) {
+				nsets++
+			}
+		}
+
+		switch nsets {
+		case 0:
+			// not part of any grouping set
+		case len(ar.groupingReferences):
+			groupTypes = append(groupTypes, e.GetType())
+		default:
+			// null for the grouping sets that it is not part of
+			groupTypes = append(groupTypes, e.GetType().WithNullability(types.NullabilityNullable))
 		}
 	}
 
@@ -1155,6 +1167,11 @@ func (ar *AggregateRel) directOutputSchema() types.RecordType {
 		groupTypes = append(groupTypes, m.measure.GetType())
 	}
 
+	if len(ar.groupingReferences) > 1 {
+		// the index of the grouping set
+		groupTypes = append(groupTypes, &types.Int32Type{Nullability: types.NullabilityRequired})
+	}
+
 	return *types.NewRecordTypeFromTypes(groupTypes)
 }
 
-- 
2.43.0


From bce6579537ef214822af39d951ec23de4d9f3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 085/118] fix: keep the create mode and advanced extension of
 decoded writes

---
 plan/plan.go      |  3 +++
 plan/relations.go | 25 +++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/plan/plan.go b/plan/plan.go
index 921eeae..e34aabc 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -981,6 +981,9 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			op:          rel.Write.Op,
 			input:       input,
 			outputMode:  rel.Write.Output,
+			createMode:  rel.Write.CreateMode,
+
+			relAdvExtension: rel.Write.AdvancedExtension,
 		}
 		if rel.Write.Common != nil {
 			out.fromProtoCommon(rel.Write.Common)
diff --git a/plan/relations.go b/plan/relations.go
index 7dedd64..acb1bbb 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2378,6 +2378,9 @@ const (
 
 type OutputMode = proto.WriteRel_OutputMode
 
+// CreateMode is a type alias for proto.WriteRel_CreateMode
+type CreateMode = proto.WriteRel_CreateMode
+
 const (
 	OutputModeUnspecified     = proto.WriteRel_OUTPUT_MODE_UNSPECIFIED
 	OutputModeNoOutput        = proto.WriteRel_OUTPUT_MODE_NO_OUTPUT
@@ -2398,6 +2401,9 @@ type NamedTableWriteRel struct {
 	op          WriteOp
 	input       Rel
 	outputMode  OutputMode
+	createMode  CreateMode
+
+	relAdvExtension *extensions.AdvancedExtension
 }
 
 func (wr *NamedTableWriteRel) directOutputSchema() types.RecordType {
@@ -2426,6 +2432,22 @@ func (wr *NamedTableWriteRel) OutputMode() OutputMode {
 	return wr.outputMode
 }
 
+
+// CreateMode is what is done if the table of a WriteOpCTAS is already there.
+func (wr *NamedTableWriteRel) CreateMode() CreateMode {
+	return wr.createMode
+}
+
+func (wr *NamedTableWriteRel) GetAdvancedExtension() *extensions.AdvancedExtension {
+	return wr.relAdvExtension
+}
+
+func (wr *NamedTableWriteRel) SetAdvancedExtension(advExtension *extensions.AdvancedExtension) *extensions.AdvancedExtension {
+	existing := wr.relAdvExtension
+	wr.relAdvExtension = advExtension
+	return existing
+}
+
 func (wr *NamedTableWriteRel) ToProto() *proto.Rel {
 	return &proto.Rel{
 		RelType: &proto.Rel_Write{
@@ -2440,6 +2462,9 @@ func (wr *NamedTableWriteRel) ToProto() *proto.Rel {
 				TableSchema: wr.tableSchema.ToProto(),
 				Op:          wr.op,
 				Input:       wr.input.ToProto(),
+				CreateMode:  wr.createMode,
+
+				AdvancedExtension: wr.relAdvExtension,
 			},
 		},
 	}
-- 
2.43.0


From 8fbc400a79cfeba5264f4c3b6dfc8b079fdc6196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 086/118] fix: keep the build input of decoded hash joins

---
 plan/plan.go      | 1 +
 plan/relations.go | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/plan/plan.go b/plan/plan.go
index e34aabc..a581740 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -920,6 +920,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			right:        right,
 			keys:         keys,
 			joinType:     HashMergeJoinType(rel.HashJoin.Type),
+			buildInput:   rel.HashJoin.BuildInput,
 			advExtension: rel.HashJoin.AdvancedExtension,
 		}
 		out.fromProtoCommon(rel.HashJoin.Common)
diff --git a/plan/relations.go b/plan/relations.go
index acb1bbb..eb4b19e 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2122,6 +2122,9 @@ func comparisonJoinKeysFromProto(
 	return out, nil
 }
 
+// HashJoinBuildInput is the input a hash join builds its table from.
+type HashJoinBuildInput = proto.HashJoinRel_BuildInput
+
 // HashJoinRel represents a relational operator to build a hash table out
 // of the right input based on a set of join keys. It will then probe
 // the hash table for incoming inputs, finding matches.
@@ -2132,6 +2135,7 @@ type HashJoinRel struct {
 	keys           []*ComparisonJoinKey
 	postJoinFilter expr.Expression
 	joinType       HashMergeJoinType
+	buildInput     HashJoinBuildInput
 	advExtension   *extensions.AdvancedExtension
 }
 
@@ -2177,6 +2181,10 @@ func (hr *HashJoinRel) SetAdvancedExtension(advExtension *extensions.AdvancedExt
 	return existing
 }
 
+
+// BuildInput is the input the hash table is built from.
+func (hr *HashJoinRel) BuildInput() HashJoinBuildInput { return hr.buildInput }
+
 func (hr *HashJoinRel) ToProto() *proto.Rel {
 	ret := &proto.Rel_HashJoin{
 		HashJoin: &proto.HashJoinRel{
@@ -2185,6 +2193,7 @@ func (hr *HashJoinRel) ToProto() *proto.Rel {
 			Right:             hr.right.ToProto(),
 			Keys:              comparisonJoinKeysToProto(hr.keys),
 			Type:              proto.HashJoinRel_JoinType(hr.joinType),
+			BuildInput:        hr.buildInput,
 			AdvancedExtension: hr.advExtension,
 		},
 	}
-- 
2.43.0


From 49ca5ada6d351c38143d7dd752c65f0362ce2d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:12 +0000
Subject: [PATCH 087/118] fix: keep the options of delimiter-separated text
 files

---
 plan/relations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plan/relations.go b/plan/relations.go
index eb4b19e..b7505cd 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -523,6 +523,7 @@ type (
 	ArrowReadOptions     proto.ReadRel_LocalFiles_FileOrFiles_ArrowReadOptions
 	OrcReadOptions       proto.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions
 	DwrfReadOptions      proto.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions
+	TextReadOptions      proto.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions
 	ExtensionReadOptions anypb.Any
 
 	FileFormat interface {
@@ -530,6 +531,7 @@ type (
 	}
 )
 
+func (*TextReadOptions) isFileFormat()      {}
 func (*ParquetReadOptions) isFileFormat()   {}
 func (*ArrowReadOptions) isFileFormat()     {}
 func (*OrcReadOptions) isFileFormat()       {}
@@ -577,6 +579,8 @@ func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
 		f.Format = (*ExtensionReadOptions)(format.Extension)
 	case *proto.ReadRel_LocalFiles_FileOrFiles_Orc:
 		f.Format = (*OrcReadOptions)(format.Orc)
+	case *proto.ReadRel_LocalFiles_FileOrFiles_Text:
+		f.Format = (*TextReadOptions)(format.Text)
 	case *proto.ReadRel_LocalFiles_FileOrFiles_Parquet:
 		f.Format = (*ParquetReadOptions)(format.Parquet)
 	}
@@ -600,6 +604,10 @@ func (f *FileOrFiles) ToProto() *proto.ReadRel_LocalFiles_FileOrFiles {
 	}
 
 	switch fm := f.Format.(type) {
+	case *TextReadOptions:
+		ret.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Text{
+			Text: (*proto.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions)(fm),
+		}
 	case *ParquetReadOptions:
 		ret.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Parquet{
 			Parquet: (*proto.ReadRel_LocalFiles_FileOrFiles_ParquetReadOptions)(fm),
-- 
2.43.0


From 1a5b93637ecb2bda7de4f724afd0374540924892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:16 +0000
Subject: [PATCH 088/118] fix: keep the type aliases of decoded plans

---
 plan/plan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plan/plan.go b/plan/plan.go
index a581740..5b80970 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -158,6 +158,7 @@ type Plan struct {
 	advExtension      *extensions.AdvancedExtension
 	relations         []Relation
 	parameterBindings []DynamicParameterBinding
+	typeAliases       []*proto.TypeAlias
 
 	reg expr.ExtensionRegistry
 }
@@ -242,6 +243,7 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 		extensions:       extSet,
 		advExtension:     plan.AdvancedExtensions,
 		expectedTypeURLs: plan.ExpectedTypeUrls,
+		typeAliases:      plan.TypeAliases,
 		relations:        make([]Relation, len(plan.Relations)),
 	}
 
@@ -301,6 +303,7 @@ func (p *Plan) ToProto() (*proto.Plan, error) {
 		Extensions:         decls,
 		ExtensionUrns:      urns,
 		ParameterBindings:  bindings,
+		TypeAliases:        p.typeAliases,
 	}, nil
 }
 
-- 
2.43.0


From a8dc757db1ed33314e1dc4bf69e9e99dbea4b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:20 +0000
Subject: [PATCH 089/118] fix: keep iceberg snapshots of timestamp zero or with
 an empty id

---
 plan/builders.go  |  9 +--------
 plan/plan.go      |  4 ++--
 plan/relations.go | 21 +++++++++++++++++----
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index bde0ac4..da43011 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -653,14 +653,7 @@ func (b *builder) ExtensionTable(detail *anypb.Any, schema types.NamedStruct) *E
 func (b *builder) IcebergTableFromMetadataFile(metadataURI string, snapshot IcebergSnapshot, schema types.NamedStruct) (*IcebergTableReadRel, error) {
 	tableType := &Direct{}
 	tableType.MetadataUri = metadataURI
-
-	if snapshot != nil {
-		if snapshotId, ok := snapshot.(SnapshotId); ok {
-			tableType.SnapshotId = snapshotId
-		} else if snapshotTimestamp, ok := snapshot.(SnapshotTimestamp); ok {
-			tableType.SnapshotTimestamp = snapshotTimestamp
-		}
-	}
+	tableType.setSnapshot(snapshot)
 
 	return &IcebergTableReadRel{
 		baseReadRel: baseReadRel{
diff --git a/plan/plan.go b/plan/plan.go
index 5b80970..3748656 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -562,9 +562,9 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 					MetadataUri: direct.Direct.MetadataUri,
 				}
 				if snapshotId, ok := direct.Direct.Snapshot.(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId); ok {
-					tableType.SnapshotId = SnapshotId(snapshotId.SnapshotId)
+					tableType.setSnapshot(SnapshotId(snapshotId.SnapshotId))
 				} else if snapshotTimestamp, ok := direct.Direct.Snapshot.(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp); ok {
-					tableType.SnapshotTimestamp = SnapshotTimestamp(snapshotTimestamp.SnapshotTimestamp)
+					tableType.setSnapshot(SnapshotTimestamp(snapshotTimestamp.SnapshotTimestamp))
 				}
 				out = &IcebergTableReadRel{
 					tableType: tableType,
diff --git a/plan/relations.go b/plan/relations.go
index b7505cd..63e9e43 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -413,6 +413,9 @@ type (
 		MetadataUri string
 		SnapshotTimestamp
 		SnapshotId
+
+		// which of the two is set, if any
+		snapshot IcebergSnapshot
 	}
 
 	IcebergTableType interface {
@@ -422,6 +425,17 @@ type (
 
 func (*Direct) isTableType() {}
 
+// setSnapshot selects a snapshot, or the latest one if it is nil.
+func (d *Direct) setSnapshot(snapshot IcebergSnapshot) {
+	d.snapshot = snapshot
+	switch s := snapshot.(type) {
+	case SnapshotId:
+		d.SnapshotId = s
+	case SnapshotTimestamp:
+		d.SnapshotTimestamp = s
+	}
+}
+
 // IcebergTableReadRel is a scan on iceberg table.
 type IcebergTableReadRel struct {
 	baseReadRel
@@ -455,11 +469,12 @@ func (n *IcebergTableReadRel) ToProto() *proto.Rel {
 		}
 
 		// SnapshotId and SnapshotTimestamp are mutually exclusive
-		if directTableType.SnapshotId != "" {
+		switch directTableType.snapshot.(type) {
+		case SnapshotId:
 			direct.Snapshot = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId{
 				SnapshotId: string(directTableType.SnapshotId),
 			}
-		} else if directTableType.SnapshotTimestamp != 0 {
+		case SnapshotTimestamp:
 			direct.Snapshot = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{
 				SnapshotTimestamp: int64(directTableType.SnapshotTimestamp),
 			}
@@ -2189,7 +2204,6 @@ func (hr *HashJoinRel) SetAdvancedExtension(advExtension *extensions.AdvancedExt
 	return existing
 }
 
-
 // BuildInput is the input the hash table is built from.
 func (hr *HashJoinRel) BuildInput() HashJoinBuildInput { return hr.buildInput }
 
@@ -2449,7 +2463,6 @@ func (wr *NamedTableWriteRel) OutputMode() OutputMode {
 	return wr.outputMode
 }
 
-
 // CreateMode is what is done if the table of a WriteOpCTAS is already there.
 func (wr *NamedTableWriteRel) CreateMode() CreateMode {
 	return wr.createMode
-- 
2.43.0


From 13682193c3d0c77136edf3460615a29140e3b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:43 +0000
Subject: [PATCH 090/118] fix: remapping a read or a leaf extension leaves the
 original unchanged

---
 plan/relations.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 63e9e43..0d69ab0 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -246,7 +246,8 @@ func (n *NamedTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *NamedTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	read := *n
+	return &read, nil
 }
 
 func (n *NamedTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -305,7 +306,8 @@ func (v *VirtualTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (v *VirtualTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return v, nil
+	read := *v
+	return &read, nil
 }
 
 func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -376,7 +378,8 @@ func (e *ExtensionTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (e *ExtensionTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return e, nil
+	read := *e
+	return &read, nil
 }
 
 func (e *ExtensionTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -497,7 +500,8 @@ func (n *IcebergTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *IcebergTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	read := *n
+	return &read, nil
 }
 
 func (n *IcebergTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -698,7 +702,8 @@ func (lf *LocalFileReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (lf *LocalFileReadRel) Copy(_ ...Rel) (Rel, error) {
-	return lf, nil
+	read := *lf
+	return &read, nil
 }
 
 func (lf *LocalFileReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -1824,7 +1829,8 @@ func (el *ExtensionLeafRel) GetInputs() []Rel {
 }
 
 func (el *ExtensionLeafRel) Copy(_ ...Rel) (Rel, error) {
-	return el, nil
+	leaf := *el
+	return &leaf, nil
 }
 
 func (el *ExtensionLeafRel) CopyWithExpressionRewrite(_ RewriteFunc, _ ...Rel) (Rel, error) {
-- 
2.43.0


From eea058676619a627cb3a0b8461a973ec63b2dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:47 +0000
Subject: [PATCH 091/118] fix: set and multi-input extension relations do not
 share their inputs with callers

---
 plan/relations.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 0d69ab0..5b8762a 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1649,12 +1649,15 @@ func (s *SetRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (s *SetRel) GetInputs() []Rel {
-	return s.inputs
+	return slices.Clone(s.inputs)
 }
 
 func (s *SetRel) Copy(newInputs ...Rel) (Rel, error) {
+	if len(newInputs) < 2 {
+		return nil, substraitgo.ErrInvalidInputCount
+	}
 	set := *s
-	set.inputs = newInputs
+	set.inputs = slices.Clone(newInputs)
 	return &set, nil
 }
 
@@ -1890,12 +1893,12 @@ func (em *ExtensionMultiRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (em *ExtensionMultiRel) GetInputs() []Rel {
-	return em.inputs
+	return slices.Clone(em.inputs)
 }
 
 func (em *ExtensionMultiRel) Copy(newInputs ...Rel) (Rel, error) {
 	proj := *em
-	proj.inputs = newInputs
+	proj.inputs = slices.Clone(newInputs)
 	return &proj, nil
 }
 
-- 
2.43.0


From 33456f04de47cddfffe4213f66c45cd18e741ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:51 +0000
Subject: [PATCH 092/118] fix: rewrite the rows of a virtual table whose
 filters are not rewritten

---
 plan/relations.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 5b8762a..970be99 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -315,25 +315,25 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 	if err != nil {
 		return nil, err
 	}
-	if slices.Equal(newExprs, v.getExpressions()) {
-		return v, nil
-	}
-	vtr := *v
-	vtr.updateFilters(newExprs)
 	valuesUnchanged := true
 	newValues := make([]expr.VirtualTableExpressionValue, len(v.values))
 	for i, val := range v.values {
-		newExprs := make([]expr.Expression, len(val))
+		newRow := make([]expr.Expression, len(val))
 		for j, e := range val {
 			newExpr, err := rewriteFunc(e)
 			if err != nil {
 				return nil, err
 			}
 			valuesUnchanged = valuesUnchanged && newExpr.Equals(e)
-			newExprs[j] = newExpr
+			newRow[j] = newExpr
 		}
-		newValues[i] = newExprs
+		newValues[i] = newRow
 	}
+	if valuesUnchanged && slices.Equal(newExprs, v.getExpressions()) {
+		return v, nil
+	}
+	vtr := *v
+	vtr.updateFilters(newExprs)
 	if !valuesUnchanged {
 		vtr.values = newValues
 	}
-- 
2.43.0


From 00cb0780d3233c388d25e1565196c4fe9f8ad7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:55 +0000
Subject: [PATCH 093/118] fix: rewrite the sort expressions of measures

---
 plan/relations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plan/relations.go b/plan/relations.go
index 970be99..5c388f2 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1307,6 +1307,14 @@ func (ar *AggregateRel) rewriteAggregateFunc(rewriteFunc RewriteFunc, f *expr.Ag
 			argsAreEqual = argsAreEqual && exp == newExp
 		}
 	}
+	for i, s := range f.Sorts {
+		newExp, err := rewriteFunc(s.Expr)
+		if err != nil {
+			return nil, err
+		}
+		newF.Sorts[i].Expr = newExp
+		argsAreEqual = argsAreEqual && s.Expr == newExp
+	}
 	if argsAreEqual {
 		return f, nil
 	}
-- 
2.43.0


From 9ab8150e92079dfe00e414a891d1abfb54427423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:26 +0000
Subject: [PATCH 094/118] fix: add the other relations to built plans after the
 root

---
 plan/builders.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index da43011..1642da8 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -774,7 +774,11 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 	}
 
 	for i, o := range others {
-		relations[i].rel = o
+		if o == nil {
+			return nil, fmt.Errorf("%w: relation %d of the plan must not be nil",
+				substraitgo.ErrInvalidRel, i+1)
+		}
+		relations[i+1].rel = o
 	}
 
 	reg := b.reg
-- 
2.43.0


From 1da8e4c52d7d007794f1661d04715aa6980ef11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 095/118] fix: validate parameter bindings against every
 parameter of a plan

---
 plan/builders.go |   2 +-
 plan/common.go   | 148 ++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 127 insertions(+), 23 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 1642da8..3354c84 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -764,7 +764,7 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 		return nil, err
 	}
 
-	if err := ValidateParameterBindings(root, bindings); err != nil {
+	if err := ValidateParameterBindings(root, bindings, others...); err != nil {
 		return nil, err
 	}
 
diff --git a/plan/common.go b/plan/common.go
index 496e1ca..7ffdc18 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -24,25 +24,44 @@ type DynamicParameterBinding struct {
 }
 
 // ValidateParameterBindings checks that every binding's literal type matches
-// the OutputType of the corresponding DynamicParameter expression found in
-// the relation tree. Type comparison ignores nullability so that a required
-// parameter can be bound to a nullable literal and vice-versa.
+// the OutputType of the corresponding DynamicParameter expressions found in
+// the relation trees of a plan, which are that of its root and those of its
+// other relations. Parameters are looked for in every expression of the
+// relations, including those of subqueries. Type comparison ignores
+// nullability so that a required parameter can be bound to a nullable literal
+// and vice-versa. Parameters need not be bound.
 //
 // Returns an error for:
-//   - A binding whose anchor does not correspond to any DynamicParameter in the tree.
+//   - A binding without a value.
+//   - A binding whose anchor does not correspond to any DynamicParameter in the trees.
+//   - A second binding of the same anchor.
 //   - A binding whose value type does not match the parameter's declared type
 //     (ignoring nullability).
-func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) error {
+func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding, others ...Rel) error {
 	if len(bindings) == 0 {
 		return nil
 	}
 
 	// Collect all DynamicParameter output types keyed by anchor.
-	paramTypes := make(map[uint32]types.Type)
+	paramTypes := make(map[uint32][]types.Type)
 	collectDynamicParams(root, paramTypes)
+	for _, rel := range others {
+		collectDynamicParams(rel, paramTypes)
+	}
 
+	bound := make(map[uint32]struct{}, len(bindings))
 	for _, b := range bindings {
-		declaredType, ok := paramTypes[b.ParameterAnchor]
+		if b.Value == nil {
+			return fmt.Errorf("%w: parameter binding for anchor %d has no value",
+				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
+		}
+		if _, ok := bound[b.ParameterAnchor]; ok {
+			return fmt.Errorf("%w: more than one parameter binding for anchor %d",
+				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
+		}
+		bound[b.ParameterAnchor] = struct{}{}
+
+		declaredTypes, ok := paramTypes[b.ParameterAnchor]
 		if !ok {
 			return fmt.Errorf("%w: parameter binding references anchor %d, "+
 				"but no DynamicParameter with that reference exists in the plan",
@@ -51,11 +70,13 @@ func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) err
 
 		// Compare ignoring nullability.
 		bindingType := b.Value.GetType().WithNullability(types.NullabilityUnspecified)
-		expectedType := declaredType.WithNullability(types.NullabilityUnspecified)
-		if !bindingType.Equals(expectedType) {
-			return fmt.Errorf("%w: parameter binding for anchor %d has type %s, "+
-				"but DynamicParameter declares type %s",
-				substraitgo.ErrInvalidPlan, b.ParameterAnchor, b.Value.GetType(), declaredType)
+		for _, declaredType := range declaredTypes {
+			expectedType := declaredType.WithNullability(types.NullabilityUnspecified)
+			if !bindingType.Equals(expectedType) {
+				return fmt.Errorf("%w: parameter binding for anchor %d has type %s, "+
+					"but DynamicParameter declares type %s",
+					substraitgo.ErrInvalidPlan, b.ParameterAnchor, b.Value.GetType(), declaredType)
+			}
 		}
 	}
 
@@ -64,29 +85,43 @@ func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) err
 
 // collectDynamicParams walks a relation tree and records the OutputType
 // of every DynamicParameter expression it encounters.
-func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
+func collectDynamicParams(rel Rel, out map[uint32][]types.Type) {
+	walkRelTree(rel, func(e expr.Expression) {
+		if dp, ok := e.(*expr.DynamicParameter); ok {
+			out[dp.ParameterReference] = append(out[dp.ParameterReference], dp.OutputType)
+		}
+	})
+}
+
+// walkRelTree visits every node of the expressions of a relation tree.
+func walkRelTree(rel Rel, fn func(expr.Expression)) {
 	if rel == nil {
 		return
 	}
 
 	// Walk child relations first.
 	for _, child := range rel.GetInputs() {
-		collectDynamicParams(child, out)
+		walkRelTree(child, fn)
 	}
 
 	// Walk expressions owned by this relation.
-	walkRelExprs(rel, func(e expr.Expression) {
-		walkExpr(e, func(inner expr.Expression) {
-			if dp, ok := inner.(*expr.DynamicParameter); ok {
-				out[dp.ParameterReference] = dp.OutputType
-			}
-		})
-	})
+	walkRelExprs(rel, func(e expr.Expression) { walkExpr(e, fn) })
 }
 
 // walkRelExprs invokes fn for every top-level expression in a relation.
 func walkRelExprs(rel Rel, fn func(expr.Expression)) {
+	if r, ok := rel.(ReadRel); ok {
+		fn(r.Filter())
+		fn(r.BestEffortFilter())
+	}
+
 	switch r := rel.(type) {
+	case *VirtualTableReadRel:
+		for _, row := range r.Values() {
+			for _, e := range row {
+				fn(e)
+			}
+		}
 	case *FilterRel:
 		fn(r.Condition())
 	case *ProjectRel:
@@ -102,15 +137,84 @@ func walkRelExprs(rel Rel, fn func(expr.Expression)) {
 		for _, sf := range r.Sorts() {
 			fn(sf.Expr)
 		}
+	case *AggregateRel:
+		for _, e := range r.GroupingExpressions() {
+			fn(e)
+		}
+		for _, m := range r.Measures() {
+			fn(m.filter)
+			if m.measure == nil {
+				continue
+			}
+			for i := range m.measure.NArgs() {
+				if e, ok := m.measure.Arg(i).(expr.Expression); ok {
+					fn(e)
+				}
+			}
+			for _, sf := range m.measure.Sorts {
+				fn(sf.Expr)
+			}
+		}
+	case *HashJoinRel:
+		walkJoinKeys(r.Keys(), fn)
+		fn(r.postJoinFilter)
+	case *MergeJoinRel:
+		walkJoinKeys(r.Keys(), fn)
+		fn(r.postJoinFilter)
+	case *ExtensionLeafRel:
+		walkDefinitionExprs(r.Definition(), nil, fn)
+	case *ExtensionSingleRel:
+		walkDefinitionExprs(r.Definition(), r.GetInputs(), fn)
+	case *ExtensionMultiRel:
+		walkDefinitionExprs(r.Definition(), r.GetInputs(), fn)
+	}
+}
+
+func walkJoinKeys(keys []*ComparisonJoinKey, fn func(expr.Expression)) {
+	for _, k := range keys {
+		if k.left != nil {
+			fn(k.left)
+		}
+		if k.right != nil {
+			fn(k.right)
+		}
 	}
 }
 
-// walkExpr recursively visits every node in an expression tree.
+func walkDefinitionExprs(def ExtensionRelDefinition, inputs []Rel, fn func(expr.Expression)) {
+	if def == nil {
+		return
+	}
+	for _, e := range def.Expressions(inputs) {
+		fn(e)
+	}
+}
+
+// walkExpr recursively visits every node in an expression tree, including
+// those of expressions that field references refer into and of the relations
+// of subqueries.
 func walkExpr(e expr.Expression, fn func(expr.Expression)) {
 	if e == nil {
 		return
 	}
 	fn(e)
+
+	// These are not children in terms of Visit.
+	switch e := e.(type) {
+	case *expr.FieldReference:
+		if root, ok := e.Root.(expr.Expression); ok {
+			walkExpr(root, fn)
+		}
+	case *ScalarSubquery:
+		walkRelTree(e.Input, fn)
+	case *InPredicateSubquery:
+		walkRelTree(e.Haystack, fn)
+	case *SetPredicateSubquery:
+		walkRelTree(e.Tuples, fn)
+	case *SetComparisonSubquery:
+		walkRelTree(e.Right, fn)
+	}
+
 	e.Visit(func(child expr.Expression) expr.Expression {
 		walkExpr(child, fn)
 		return child
-- 
2.43.0


From 17a2d7cc54d6e8748dfa2d0224ee3d7aed513c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 096/118] fix: reject scalar and set comparison subqueries
 without exactly one column

---
 plan/builders.go |  8 ++++++++
 plan/subquery.go | 14 ++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 3354c84..bd6fcea 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -992,6 +992,10 @@ func (b *builder) ScalarSubquery(input Rel) (*ScalarSubquery, error) {
 		return nil, errNilInputRel
 	}
 
+	if err := validateSingleColumn("scalar", input); err != nil {
+		return nil, err
+	}
+
 	return NewScalarSubquery(input), nil
 }
 
@@ -1019,6 +1023,10 @@ func (b *builder) SetComparisonSubquery(
 		return nil, errNilInputRel
 	}
 
+	if err := validateSingleColumn("set comparison", right); err != nil {
+		return nil, err
+	}
+
 	return NewSetComparisonSubquery(
 		reductionOp,
 		comparisonOp,
diff --git a/plan/subquery.go b/plan/subquery.go
index 98c2f8a..fecb7af 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -27,6 +27,9 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		if err != nil {
 			return nil, err
 		}
+		if err := validateSingleColumn("scalar", rel); err != nil {
+			return nil, err
+		}
 		return NewScalarSubquery(rel), nil
 
 	case *proto.Expression_Subquery_InPredicate_:
@@ -75,6 +78,17 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 	}
 }
 
+// validateSingleColumn checks that the relation of a subquery of the given
+// kind has exactly one column.
+func validateSingleColumn(kind string, rel Rel) error {
+	schema := rel.RecordType()
+	if schema.FieldCount() != 1 {
+		return fmt.Errorf("%w: %s subquery must return exactly one column, got %d",
+			substraitgo.ErrInvalidExpr, kind, schema.FieldCount())
+	}
+	return nil
+}
+
 // ScalarSubquery is a subquery that returns one row and one column
 type ScalarSubquery struct {
 	Input Rel
-- 
2.43.0


From 5564b481970fc79a036035249714b4ba9bf6da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:03 +0000
Subject: [PATCH 097/118] fix: check output mappings of filters and table
 writes against their columns

---
 plan/builders.go | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index bd6fcea..396c2cd 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -340,21 +340,23 @@ func (b *builder) CreateTableAsSelectRemap(input Rel, remap []int32, tableName [
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          WriteOpCTAS,
 		input:       input,
 		outputMode:  OutputModeModifiedRecords,
-	}, nil
+	}
+
+	nOutput := out.directOutputSchema().FieldCount()
+	for _, idx := range remap {
+		if idx < 0 || idx >= nOutput {
+			return nil, errOutputMappingOutOfRange
+		}
+	}
+
+	return out, nil
 }
 
 func (b *builder) CreateTableAsSelect(input Rel, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
@@ -421,7 +423,7 @@ func (b *builder) FilterRemap(input Rel, condition expr.Expression, remap []int3
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
 
-	noutput := input.directOutputSchema().FieldCount()
+	noutput := input.RecordType().FieldCount()
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
 			return nil, errOutputMappingOutOfRange
@@ -502,21 +504,23 @@ func (b *builder) NamedWriteRemap(input Rel, op WriteOp, tableName []string, sch
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          op,
 		input:       input,
 		outputMode:  OutputModeNoOutput,
-	}, nil
+	}
+
+	nOutput := out.directOutputSchema().FieldCount()
+	for _, idx := range remap {
+		if idx < 0 || idx >= nOutput {
+			return nil, errOutputMappingOutOfRange
+		}
+	}
+
+	return out, nil
 }
 
 func (b *builder) NamedWrite(input Rel, op WriteOp, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
-- 
2.43.0


From 29248d95f1cb532f8ced5439e33d4b430ae037c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:24 +0000
Subject: [PATCH 098/118] fix: check the shape of virtual tables against the
 names of their columns

---
 plan/builders.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 396c2cd..96d1a44 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -582,10 +582,18 @@ func (b *builder) VirtualTableFromExprRemap(fieldNames []string, remap []int32,
 		return nil, fmt.Errorf("%w: must provide at least one set of values. Consider EmptyVirtualTable to construct rowless Virtual Table", substraitgo.ErrInvalidArg)
 	}
 
-	nfields := len(fieldNames)
-	if len(values[0]) != nfields {
-		return nil, fmt.Errorf("%w: mismatched number of fields (%d) and literal values (%d) in virtual table",
-			substraitgo.ErrInvalidRel, nfields, len(values[0]))
+	nfields := len(values[0])
+	for i, row := range values {
+		if len(row) != nfields {
+			return nil, fmt.Errorf("%w: mismatched number of values in row %d of virtual table, found %d, expected %d",
+				substraitgo.ErrInvalidRel, i, len(row), nfields)
+		}
+		for j, v := range row {
+			if v == nil || v.GetType() == nil {
+				return nil, fmt.Errorf("%w: value in row %d, col %d of virtual table must not be nil and must have a known type",
+					substraitgo.ErrInvalidRel, i, j)
+			}
+		}
 	}
 
 	for _, idx := range remap {
@@ -616,6 +624,9 @@ func (b *builder) VirtualTableFromExprRemap(fieldNames []string, remap []int32,
 			Types:       typeList,
 		},
 	}
+	if err := validateSchemaNames(baseSchema); err != nil {
+		return nil, err
+	}
 
 	return &VirtualTableReadRel{
 		baseReadRel: baseReadRel{
@@ -638,6 +649,10 @@ func (b *builder) EmptyVirtualTable(fieldNames []string, typeList []types.Type)
 			Types:       typeList,
 		},
 	}
+	if err := validateSchemaNames(baseSchema); err != nil {
+		return nil, err
+	}
+
 	return &VirtualTableReadRel{
 		baseReadRel: baseReadRel{
 			baseSchema: baseSchema,
@@ -645,6 +660,21 @@ func (b *builder) EmptyVirtualTable(fieldNames []string, typeList []types.Type)
 	}, nil
 }
 
+// validateSchemaNames checks that a schema names its columns and all their
+// nested fields, in depth-first order.
+func validateSchemaNames(schema types.NamedStruct) error {
+	for i, typ := range schema.Struct.Types {
+		if typ == nil {
+			return fmt.Errorf("%w: column %d of schema has no type", substraitgo.ErrInvalidRel, i)
+		}
+	}
+	if expected := schema.Struct.DepthFirstNameCount(); len(schema.Names) != expected {
+		return fmt.Errorf("%w: schema has %d name(s) but its columns require %d",
+			substraitgo.ErrInvalidRel, len(schema.Names), expected)
+	}
+	return nil
+}
+
 func (b *builder) ExtensionTable(detail *anypb.Any, schema types.NamedStruct) *ExtensionTableReadRel {
 	return &ExtensionTableReadRel{
 		baseReadRel: baseReadRel{
-- 
2.43.0


From f102836a111faab53b373a941f9a3706679b8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:25 +0000
Subject: [PATCH 099/118] fix: check the number of names of schemas given to
 the plan builder

---
 plan/builders.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 96d1a44..ccd81c8 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -340,6 +340,10 @@ func (b *builder) CreateTableAsSelectRemap(input Rel, remap []int32, tableName [
 		return nil, errNilInputRel
 	}
 
+	if err := validateSchemaNames(schema); err != nil {
+		return nil, err
+	}
+
 	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
@@ -504,6 +508,10 @@ func (b *builder) NamedWriteRemap(input Rel, op WriteOp, tableName []string, sch
 		return nil, errNilInputRel
 	}
 
+	if err := validateSchemaNames(schema); err != nil {
+		return nil, err
+	}
+
 	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
@@ -536,6 +544,10 @@ func (b *builder) NamedDelete(input Rel, tableName []string, schema types.NamedS
 }
 
 func (b *builder) NamedScanRemap(tableName []string, schema types.NamedStruct, remap []int32) (*NamedTableReadRel, error) {
+	if err := validateSchemaNames(schema); err != nil {
+		return nil, err
+	}
+
 	noutput := int32(len(schema.Struct.Types))
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
@@ -544,20 +556,16 @@ func (b *builder) NamedScanRemap(tableName []string, schema types.NamedStruct, r
 		}
 	}
 
-	return &NamedTableReadRel{
-		baseReadRel: baseReadRel{
-			RelCommon: RelCommon{
-				mapping: remap,
-			},
-			baseSchema: schema,
-		},
-		names: tableName,
-	}, nil
+	out := b.NamedScan(tableName, schema)
+	out.mapping = remap
+	return out, nil
 }
 
 func (b *builder) NamedScan(tableName []string, schema types.NamedStruct) *NamedTableReadRel {
-	n, _ := b.NamedScanRemap(tableName, schema, nil)
-	return n
+	return &NamedTableReadRel{
+		baseReadRel: baseReadRel{baseSchema: schema},
+		names:       tableName,
+	}
 }
 
 func (b *builder) VirtualTableRemap(fieldNames []string, remap []int32, values ...expr.StructLiteralValue) (*VirtualTableReadRel, error) {
@@ -685,6 +693,10 @@ func (b *builder) ExtensionTable(detail *anypb.Any, schema types.NamedStruct) *E
 }
 
 func (b *builder) IcebergTableFromMetadataFile(metadataURI string, snapshot IcebergSnapshot, schema types.NamedStruct) (*IcebergTableReadRel, error) {
+	if err := validateSchemaNames(schema); err != nil {
+		return nil, err
+	}
+
 	tableType := &Direct{}
 	tableType.MetadataUri = metadataURI
 	tableType.setSnapshot(snapshot)
-- 
2.43.0


From fdc3e6a9b44920f2d3bbb7bfcb9ef96b32d01160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:35 +0000
Subject: [PATCH 100/118] fix: reject negative offsets and counts of fetch
 relations

---
 plan/builders.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index ccd81c8..0d83abc 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -394,6 +394,16 @@ func (b *builder) FetchRemap(input Rel, offset, count int64, remap []int32) (*Fe
 		return nil, errNilInputRel
 	}
 
+	if offset < 0 {
+		return nil, fmt.Errorf("%w: offset of fetch relation must not be negative, got %d",
+			substraitgo.ErrInvalidRel, offset)
+	}
+
+	if count < FETCH_COUNT_ALL_RECORDS {
+		return nil, fmt.Errorf("%w: count of fetch relation must not be negative unless it is %d for all records, got %d",
+			substraitgo.ErrInvalidRel, FETCH_COUNT_ALL_RECORDS, count)
+	}
+
 	noutput := input.RecordType().FieldCount()
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
-- 
2.43.0


From 4001d085416980b2e76702392c82255fc21827d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:44 +0000
Subject: [PATCH 101/118] fix: reject project and sort relations with nil
 expressions

---
 plan/builders.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 0d83abc..f95f88e 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -284,6 +284,10 @@ func (b *builder) ProjectRemap(input Rel, remap []int32, exprs ...expr.Expressio
 		return nil, fmt.Errorf("%w: must provide at least one expression for project relation", substraitgo.ErrInvalidRel)
 	}
 
+	if slices.Contains(exprs, nil) {
+		return nil, fmt.Errorf("%w: expressions of project relation must not be nil", substraitgo.ErrInvalidRel)
+	}
+
 	noutput := input.RecordType().FieldCount() + int32(len(exprs))
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
@@ -735,6 +739,12 @@ func (b *builder) SortRemap(input Rel, remap []int32, sorts ...expr.SortField) (
 		return nil, fmt.Errorf("%w: must provide at least one SortField for sort relation", substraitgo.ErrInvalidRel)
 	}
 
+	for _, s := range sorts {
+		if s.Expr == nil {
+			return nil, fmt.Errorf("%w: expressions of sort relation must not be nil", substraitgo.ErrInvalidRel)
+		}
+	}
+
 	return &SortRel{
 		RelCommon: RelCommon{mapping: remap},
 		input:     input,
-- 
2.43.0


From 74d40dede8df7cad04458f44806b6cc9eddcca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:43 +0000
Subject: [PATCH 102/118] fix: reject nil measures and conditions of unknown
 type in the plan builder

---
 plan/builders.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index f95f88e..8b35015 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -426,6 +426,12 @@ func (b *builder) Fetch(input Rel, offset, count int64) (*FetchRel, error) {
 	return b.FetchRemap(input, offset, count, nil)
 }
 
+// isBoolean reports whether an expression is known to yield a boolean.
+func isBoolean(e expr.Expression) bool {
+	t := e.GetType()
+	return t != nil && t.WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{})
+}
+
 func (b *builder) FilterRemap(input Rel, condition expr.Expression, remap []int32) (*FilterRel, error) {
 	if input == nil {
 		return nil, errNilInputRel
@@ -436,7 +442,7 @@ func (b *builder) FilterRemap(input Rel, condition expr.Expression, remap []int3
 			substraitgo.ErrInvalidRel)
 	}
 
-	if !condition.GetType().WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{}) {
+	if !isBoolean(condition) {
 		return nil, fmt.Errorf("%w: condition for Filter Relation must yield boolean, not %s",
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
@@ -471,7 +477,7 @@ func (b *builder) JoinAndFilterRemap(left, right Rel, condition, postJoinFilter
 			substraitgo.ErrInvalidRel)
 	}
 
-	if !condition.GetType().WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{}) {
+	if !isBoolean(condition) {
 		return nil, fmt.Errorf("%w: condition for Join Relation must yield boolean, not %s",
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
@@ -482,7 +488,7 @@ func (b *builder) JoinAndFilterRemap(left, right Rel, condition, postJoinFilter
 	}
 
 	if postJoinFilter != nil {
-		if !postJoinFilter.GetType().WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{}) {
+		if !isBoolean(postJoinFilter) {
 			return nil, fmt.Errorf("%w: post join filter must be either nil or yield a boolean, not %s",
 				substraitgo.ErrInvalidArg, postJoinFilter.GetType())
 		}
@@ -992,6 +998,12 @@ func (arb *AggregateRelBuilder) validate() error {
 		return errNoGroupingExpression
 	}
 
+	for _, m := range arb.measures {
+		if m.measure == nil {
+			return fmt.Errorf("%w: measure of aggregate relation must not be nil", substraitgo.ErrInvalidRel)
+		}
+	}
+
 	if slices.ContainsFunc(arb.groupingExpressions, func(e expr.Expression) bool {
 		return e == nil
 	}) {
-- 
2.43.0


From 69a29dcb75581627b0416e63b198fc0312bfed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:52 +0000
Subject: [PATCH 103/118] fix: reject unknown join types and set operations in
 the plan builder

---
 plan/builders.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 8b35015..67864ac 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -10,6 +10,7 @@ import (
 	"github.com/substrait-io/substrait-go/v8/expr"
 	"github.com/substrait-io/substrait-go/v8/extensions"
 	"github.com/substrait-io/substrait-go/v8/types"
+	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 	"google.golang.org/protobuf/types/known/anypb"
 )
 
@@ -487,6 +488,10 @@ func (b *builder) JoinAndFilterRemap(left, right Rel, condition, postJoinFilter
 			substraitgo.ErrInvalidArg)
 	}
 
+	if _, known := proto.JoinRel_JoinType_name[int32(joinType)]; !known {
+		return nil, fmt.Errorf("%w: unknown join type %d", substraitgo.ErrInvalidArg, joinType)
+	}
+
 	if postJoinFilter != nil {
 		if !isBoolean(postJoinFilter) {
 			return nil, fmt.Errorf("%w: post join filter must be either nil or yield a boolean, not %s",
@@ -779,6 +784,10 @@ func (b *builder) SetRemap(op SetOp, remap []int32, inputs ...Rel) (*SetRel, err
 		return nil, fmt.Errorf("%w: operation for set relation must not be unspecified", substraitgo.ErrInvalidArg)
 	}
 
+	if _, known := proto.SetRel_SetOp_name[int32(op)]; !known {
+		return nil, fmt.Errorf("%w: unknown operation %d for set relation", substraitgo.ErrInvalidArg, op)
+	}
+
 	if len(inputs) < 2 {
 		return nil, fmt.Errorf("%w: must have at least 2 relations for a set relation, got %d",
 			substraitgo.ErrInvalidRel, len(inputs))
-- 
2.43.0


From 5f14e4e38e2171fb19b8c674399239f800182743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 104/118] fix: check inputs and indices of field references
 made by the plan builder

---
 plan/builders.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 67864ac..5f77db9 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -38,7 +38,7 @@ type Builder interface {
 	// relation indicated by the passed in index. This will ensure the output
 	// type is properly propagated based on the reference.
 	//
-	// Will return an error if the index is < 0 or > the number of output fields.
+	// Will return an error if the index is < 0 or >= the number of output fields.
 	RootFieldRef(input Rel, index int32) (*expr.FieldReference, error)
 	// JoinedRecordFieldRef constructs a root field reference for the full tuple of
 	// the inputs to a join, to construct an expression that is viable to use as
@@ -60,7 +60,7 @@ type Builder interface {
 	AggregateFn(nameSpace, key string, opts []*types.FunctionOption, args ...types.FuncArg) (*expr.AggregateFunction, error)
 	// SortFields is a convenience method to construct a list of sort fields
 	// from the column indices of an existing relation. This will return an error
-	// if any of the indices are < 0 or > the number of columns in the output
+	// if any of the indices are < 0 or >= the number of columns in the output
 	// of the relation. This will use types.SortAscNullsLast as the sort kind
 	// for each field in the returned slice.
 	SortFields(input Rel, indices ...int32) ([]expr.SortField, error)
@@ -242,8 +242,12 @@ func (b *builder) UserDefinedType(nameSpace, typeName string, params ...types.Ty
 }
 
 func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.FieldReference, error) {
-	baseTypes := append(left.RecordType().Types(), right.RecordType().Types()...)
-	if index < 0 || index > int32(len(baseTypes)) {
+	if left == nil || right == nil {
+		return nil, errNilInputRel
+	}
+
+	baseTypes := slices.Concat(left.RecordType().Types(), right.RecordType().Types())
+	if index < 0 || index >= int32(len(baseTypes)) {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields to reference",
 			substraitgo.ErrInvalidArg, index, len(baseTypes))
 	}
@@ -252,8 +256,12 @@ func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.Fiel
 }
 
 func (b *builder) RootFieldRef(input Rel, index int32) (*expr.FieldReference, error) {
+	if input == nil {
+		return nil, errNilInputRel
+	}
+
 	base := input.RecordType()
-	if index < 0 || index > base.FieldCount() {
+	if index < 0 || index >= base.FieldCount() {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields in rel",
 			substraitgo.ErrInvalidArg, index, base.FieldCount())
 	}
-- 
2.43.0


From 1aded92cca5cd0f062471b0464b46a29a6958530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:39 +0000
Subject: [PATCH 105/118] fix: decode updates of named tables, which the plan
 builder makes

---
 plan/plan.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plan/plan.go b/plan/plan.go
index 3748656..ed6a353 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -993,7 +993,8 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			out.fromProtoCommon(rel.Write.Common)
 		}
 		switch rel.Write.Op {
-		case proto.WriteRel_WRITE_OP_CTAS, proto.WriteRel_WRITE_OP_INSERT, proto.WriteRel_WRITE_OP_DELETE:
+		case proto.WriteRel_WRITE_OP_CTAS, proto.WriteRel_WRITE_OP_INSERT, proto.WriteRel_WRITE_OP_DELETE,
+			proto.WriteRel_WRITE_OP_UPDATE:
 			switch writeType := rel.Write.WriteType.(type) {
 			case *proto.WriteRel_NamedTable:
 				out.names = writeType.NamedTable.Names
-- 
2.43.0


From 9576d345a2632bb0ebc9c4556d49170d843f7e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:06 +0000
Subject: [PATCH 106/118] fix: report malformed and partial messages as errors
 instead of panicking

Decoders read messages through their getters, and malformed types are
errors (DecodeType, DecodeNamedStruct). Types that cannot be derived,
such as those of references into outer queries, are compared, printed
and made nullable without a nil dereference.
---
 expr/expression.go          | 157 ++++++++------
 expr/functions.go           |  23 ++-
 expr/literals.go            |   4 +-
 extensions/extension_mgr.go |  38 ++--
 plan/internal/helper.go     |   8 +-
 plan/plan.go                | 256 ++++++++++++-----------
 plan/relations.go           |  70 ++++---
 plan/subquery.go            |  22 +-
 types/types.go              | 395 ++++++++++++++++++++++--------------
 9 files changed, 567 insertions(+), 406 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 04aa9ce..ab42125 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -41,17 +41,26 @@ func MustExpr(e Expression, err error) Expression {
 }
 
 func FuncArgFromProto(e *proto.FunctionArgument, baseSchema *types.RecordType, reg ExtensionRegistry) (types.FuncArg, error) {
-	switch et := e.ArgType.(type) {
+	switch et := e.GetArgType().(type) {
 	case *proto.FunctionArgument_Enum:
 		return types.Enum(et.Enum), nil
 	case *proto.FunctionArgument_Type:
-		return types.TypeFromProto(et.Type), nil
+		return decodeType(et.Type)
 	case *proto.FunctionArgument_Value:
 		return ExprFromProto(et.Value, baseSchema, reg)
 	}
 	return nil, substraitgo.ErrNotImplemented
 }
 
+// decodeType decodes the type of an expression.
+func decodeType(t *proto.Type) (types.Type, error) {
+	typ, err := types.DecodeType(t)
+	if err != nil {
+		return nil, fmt.Errorf("%w: %w", substraitgo.ErrInvalidExpr, err)
+	}
+	return typ, nil
+}
+
 func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg ExtensionRegistry) (Expression, error) {
 	if e == nil {
 		return nil, fmt.Errorf("%w: protobuf Expression is nil", substraitgo.ErrInvalidExpr)
@@ -64,16 +73,20 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		return FieldReferenceFromProto(et.Selection, baseSchema, reg)
 	case *proto.Expression_ScalarFunction_:
 		var err error
-		args := make([]types.FuncArg, len(et.ScalarFunction.Arguments))
-		for i, a := range et.ScalarFunction.Arguments {
+		args := make([]types.FuncArg, len(et.ScalarFunction.GetArguments()))
+		for i, a := range et.ScalarFunction.GetArguments() {
 			if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
 				return nil, err
 			}
 		}
 
-		if et.ScalarFunction.OutputType == nil {
+		if et.ScalarFunction.GetOutputType() == nil {
 			return nil, fmt.Errorf("%w: scalar function missing output type", substraitgo.ErrInvalidExpr)
 		}
+		outputType, err := decodeType(et.ScalarFunction.OutputType)
+		if err != nil {
+			return nil, err
+		}
 
 		id, ok := reg.DecodeFunc(et.ScalarFunction.FunctionReference)
 		if !ok {
@@ -90,34 +103,38 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			declaration: decl,
 			args:        args,
 			options:     et.ScalarFunction.Options,
-			outputType:  types.TypeFromProto(et.ScalarFunction.OutputType),
+			outputType:  outputType,
 		}, nil
 	case *proto.Expression_WindowFunction_:
 		var err error
-		args := make([]types.FuncArg, len(et.WindowFunction.Arguments))
-		for i, a := range et.WindowFunction.Arguments {
+		args := make([]types.FuncArg, len(et.WindowFunction.GetArguments()))
+		for i, a := range et.WindowFunction.GetArguments() {
 			if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
 				return nil, err
 			}
 		}
 
-		parts := make([]Expression, len(et.WindowFunction.Partitions))
-		for i, p := range et.WindowFunction.Partitions {
+		parts := make([]Expression, len(et.WindowFunction.GetPartitions()))
+		for i, p := range et.WindowFunction.GetPartitions() {
 			if parts[i], err = ExprFromProto(p, baseSchema, reg); err != nil {
 				return nil, err
 			}
 		}
 
-		sorts := make([]SortField, len(et.WindowFunction.Sorts))
-		for i, s := range et.WindowFunction.Sorts {
+		sorts := make([]SortField, len(et.WindowFunction.GetSorts()))
+		for i, s := range et.WindowFunction.GetSorts() {
 			if sorts[i], err = SortFieldFromProto(s, baseSchema, reg); err != nil {
 				return nil, err
 			}
 		}
 
-		if et.WindowFunction.OutputType == nil {
+		if et.WindowFunction.GetOutputType() == nil {
 			return nil, fmt.Errorf("%w: window function missing output type", substraitgo.ErrInvalidExpr)
 		}
+		outputType, err := decodeType(et.WindowFunction.OutputType)
+		if err != nil {
+			return nil, err
+		}
 
 		id, ok := reg.DecodeFunc(et.WindowFunction.FunctionReference)
 		if !ok {
@@ -133,7 +150,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			declaration: decl,
 			args:        args,
 			options:     et.WindowFunction.Options,
-			outputType:  types.TypeFromProto(et.WindowFunction.OutputType),
+			outputType:  outputType,
 			phase:       et.WindowFunction.Phase,
 			invocation:  et.WindowFunction.Invocation,
 			Partitions:  parts,
@@ -143,19 +160,19 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			UpperBound:  BoundFromProto(et.WindowFunction.UpperBound),
 		}, nil
 	case *proto.Expression_IfThen_:
-		elseExpr, err := ExprFromProto(et.IfThen.Else, baseSchema, reg)
+		elseExpr, err := ExprFromProto(et.IfThen.GetElse(), baseSchema, reg)
 		if err != nil {
 			return nil, err
 		}
 
-		ifs := make([]IfThenPair, len(et.IfThen.Ifs))
-		for i, clause := range et.IfThen.Ifs {
-			ifs[i].If, err = ExprFromProto(clause.If, baseSchema, reg)
+		ifs := make([]IfThenPair, len(et.IfThen.GetIfs()))
+		for i, clause := range et.IfThen.GetIfs() {
+			ifs[i].If, err = ExprFromProto(clause.GetIf(), baseSchema, reg)
 			if err != nil {
 				return nil, err
 			}
 
-			ifs[i].Then, err = ExprFromProto(clause.Then, baseSchema, reg)
+			ifs[i].Then, err = ExprFromProto(clause.GetThen(), baseSchema, reg)
 			if err != nil {
 				return nil, err
 			}
@@ -166,15 +183,15 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			elseClause: elseExpr,
 		}, nil
 	case *proto.Expression_SwitchExpression_:
-		matched, err := ExprFromProto(et.SwitchExpression.Match, baseSchema, reg)
+		matched, err := ExprFromProto(et.SwitchExpression.GetMatch(), baseSchema, reg)
 		if err != nil {
 			return nil, err
 		}
 
 		// the else expression of a switch is optional
 		var elseExpr Expression
-		if et.SwitchExpression.Else != nil {
-			elseExpr, err = ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
+		if et.SwitchExpression.GetElse() != nil {
+			elseExpr, err = ExprFromProto(et.SwitchExpression.GetElse(), baseSchema, reg)
 			if err != nil {
 				return nil, err
 			}
@@ -183,12 +200,12 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		ifs := make([]struct {
 			If   Literal
 			Then Expression
-		}, len(et.SwitchExpression.Ifs))
-		for i, clause := range et.SwitchExpression.Ifs {
+		}, len(et.SwitchExpression.GetIfs()))
+		for i, clause := range et.SwitchExpression.GetIfs() {
 			if ifs[i].If, err = literalFromProto(clause.GetIf()); err != nil {
 				return nil, err
 			}
-			ifs[i].Then, err = ExprFromProto(clause.Then, baseSchema, reg)
+			ifs[i].Then, err = ExprFromProto(clause.GetThen(), baseSchema, reg)
 			if err != nil {
 				return nil, err
 			}
@@ -200,13 +217,13 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			elseClause: elseExpr,
 		}, nil
 	case *proto.Expression_SingularOrList_:
-		val, err := ExprFromProto(et.SingularOrList.Value, baseSchema, reg)
+		val, err := ExprFromProto(et.SingularOrList.GetValue(), baseSchema, reg)
 		if err != nil {
 			return nil, err
 		}
 
-		opts := make([]Expression, len(et.SingularOrList.Options))
-		for i, o := range et.SingularOrList.Options {
+		opts := make([]Expression, len(et.SingularOrList.GetOptions()))
+		for i, o := range et.SingularOrList.GetOptions() {
 			opts[i], err = ExprFromProto(o, baseSchema, reg)
 			if err != nil {
 				return nil, err
@@ -219,18 +236,18 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}, nil
 	case *proto.Expression_MultiOrList_:
 		var err error
-		val := make([]Expression, len(et.MultiOrList.Value))
-		for i, v := range et.MultiOrList.Value {
+		val := make([]Expression, len(et.MultiOrList.GetValue()))
+		for i, v := range et.MultiOrList.GetValue() {
 			val[i], err = ExprFromProto(v, baseSchema, reg)
 			if err != nil {
 				return nil, err
 			}
 		}
 
-		options := make([][]Expression, len(et.MultiOrList.Options))
-		for i, opts := range et.MultiOrList.Options {
-			options[i] = make([]Expression, len(opts.Fields))
-			for j, o := range opts.Fields {
+		options := make([][]Expression, len(et.MultiOrList.GetOptions()))
+		for i, opts := range et.MultiOrList.GetOptions() {
+			options[i] = make([]Expression, len(opts.GetFields()))
+			for j, o := range opts.GetFields() {
 				options[i][j], err = ExprFromProto(o, baseSchema, reg)
 				if err != nil {
 					return nil, err
@@ -243,9 +260,13 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			Options: options,
 		}, nil
 	case *proto.Expression_Cast_:
-		if et.Cast.Type == nil {
+		if et.Cast.GetType() == nil {
 			return nil, fmt.Errorf("%w: cast expression missing type", substraitgo.ErrInvalidExpr)
 		}
+		typ, err := decodeType(et.Cast.Type)
+		if err != nil {
+			return nil, err
+		}
 
 		input, err := ExprFromProto(et.Cast.Input, baseSchema, reg)
 		if err != nil {
@@ -253,29 +274,29 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}
 
 		return &Cast{
-			Type:            types.TypeFromProto(et.Cast.Type),
+			Type:            typ,
 			Input:           input,
 			FailureBehavior: et.Cast.FailureBehavior,
 		}, nil
 	case *proto.Expression_Nested_:
 		var err error
-		nullable, typevar := et.Nested.Nullable, et.Nested.TypeVariationReference
+		nullable, typevar := et.Nested.GetNullable(), et.Nested.GetTypeVariationReference()
 
-		switch n := et.Nested.NestedType.(type) {
+		switch n := et.Nested.GetNestedType().(type) {
 		case *proto.Expression_Nested_Map_:
-			if len(n.Map.KeyValues) == 0 {
+			if len(n.Map.GetKeyValues()) == 0 {
 				return nil, fmt.Errorf("%w: use an empty map literal instead of NestedExpr map to preserve type info",
 					substraitgo.ErrInvalidExpr)
 			}
 
-			keyValues := make([]struct{ Key, Value Expression }, len(n.Map.KeyValues))
-			for i, kv := range n.Map.KeyValues {
-				keyValues[i].Key, err = ExprFromProto(kv.Key, baseSchema, reg)
+			keyValues := make([]struct{ Key, Value Expression }, len(n.Map.GetKeyValues()))
+			for i, kv := range n.Map.GetKeyValues() {
+				keyValues[i].Key, err = ExprFromProto(kv.GetKey(), baseSchema, reg)
 				if err != nil {
 					return nil, err
 				}
 
-				keyValues[i].Value, err = ExprFromProto(kv.Value, baseSchema, reg)
+				keyValues[i].Value, err = ExprFromProto(kv.GetValue(), baseSchema, reg)
 				if err != nil {
 					return nil, err
 				}
@@ -287,8 +308,8 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 				KeyValues:        keyValues,
 			}, nil
 		case *proto.Expression_Nested_Struct_:
-			fields := make([]Expression, len(n.Struct.Fields))
-			for i, f := range n.Struct.Fields {
+			fields := make([]Expression, len(n.Struct.GetFields()))
+			for i, f := range n.Struct.GetFields() {
 				fields[i], err = ExprFromProto(f, baseSchema, reg)
 				if err != nil {
 					return nil, err
@@ -301,13 +322,13 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 				Fields:           fields,
 			}, nil
 		case *proto.Expression_Nested_List_:
-			if len(n.List.Values) == 0 {
+			if len(n.List.GetValues()) == 0 {
 				return nil, fmt.Errorf("%w: use an empty list literal to preserve type info instead of nested expression",
 					substraitgo.ErrInvalidExpr)
 			}
 
-			values := make([]Expression, len(n.List.Values))
-			for i, v := range n.List.Values {
+			values := make([]Expression, len(n.List.GetValues()))
+			for i, v := range n.List.GetValues() {
 				values[i], err = ExprFromProto(v, baseSchema, reg)
 				if err != nil {
 					return nil, err
@@ -327,8 +348,12 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		if et.DynamicParameter == nil {
 			return nil, fmt.Errorf("%w: dynamic parameter is nil", substraitgo.ErrInvalidExpr)
 		}
+		outputType, err := decodeType(et.DynamicParameter.Type)
+		if err != nil {
+			return nil, err
+		}
 		return &DynamicParameter{
-			OutputType:         types.TypeFromProto(et.DynamicParameter.Type),
+			OutputType:         outputType,
 			ParameterReference: et.DynamicParameter.ParameterReference,
 		}, nil
 	case *proto.Expression_Enum_:
@@ -339,7 +364,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}
 		return reg.SubqueryFromProto(et.Subquery, baseSchema, reg)
 	case *proto.Expression_Lambda_:
-		if et.Lambda.Parameters == nil {
+		if et.Lambda.GetParameters() == nil {
 			return nil, fmt.Errorf("%w: lambda parameters cannot be nil", substraitgo.ErrInvalidExpr)
 		}
 		if et.Lambda.Body == nil {
@@ -348,7 +373,10 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 		paramTypes := make([]types.Type, len(et.Lambda.Parameters.Types))
 		for i, pt := range et.Lambda.Parameters.Types {
-			paramTypes[i] = types.TypeFromProto(pt)
+			var err error
+			if paramTypes[i], err = decodeType(pt); err != nil {
+				return nil, err
+			}
 		}
 		params := &types.StructType{
 			Types:            paramTypes,
@@ -864,6 +892,14 @@ func (ex *SwitchExpr) GetType() types.Type {
 		}
 	}
 
+	if t == nil {
+		// there are no branches but the else clause
+		if ex.elseClause == nil {
+			return nil
+		}
+		return ex.elseClause.GetType()
+	}
+
 	// if there's no else clause, then return a nullable type
 	if ex.elseClause == nil {
 		return t.WithNullability(types.NullabilityNullable)
@@ -1686,15 +1722,18 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 	if err != nil {
 		return nil, err
 	}
+	base, err := types.DecodeNamedStruct(ex.GetBaseSchema())
+	if err != nil {
+		return nil, err
+	}
 	var (
-		base = types.NewNamedStructFromProto(ex.BaseSchema)
 		reg  = NewExtensionRegistry(extSet, c)
-		refs = make([]ExpressionReference, len(ex.ReferredExpr))
+		refs = make([]ExpressionReference, len(ex.GetReferredExpr()))
 	)
 
-	for i, r := range ex.ReferredExpr {
-		refs[i].OutputNames = r.OutputNames
-		switch et := r.ExprType.(type) {
+	for i, r := range ex.GetReferredExpr() {
+		refs[i].OutputNames = r.GetOutputNames()
+		switch et := r.GetExprType().(type) {
 		case *proto.ExpressionReference_Expression:
 			thisType := types.NewRecordTypeFromStruct(base.Struct)
 			expr, err := ExprFromProto(et.Expression, thisType, reg)
@@ -1713,12 +1752,12 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 	}
 
 	return &Extended{
-		Version:          ex.Version,
+		Version:          ex.GetVersion(),
 		Extensions:       extSet,
 		ReferredExpr:     refs,
 		BaseSchema:       base,
-		AdvancedExts:     ex.AdvancedExtensions,
-		ExpectedTypeURLs: ex.ExpectedTypeUrls,
+		AdvancedExts:     ex.GetAdvancedExtensions(),
+		ExpectedTypeURLs: ex.GetExpectedTypeUrls(),
 		reg:              reg,
 	}, nil
 }
diff --git a/expr/functions.go b/expr/functions.go
index 7896ad7..1f4d102 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -80,7 +80,7 @@ func (s *SortField) ToProto() *proto.SortField {
 func SortFieldFromProto(
 	f *proto.SortField, baseSchema *types.RecordType, reg ExtensionRegistry,
 ) (sf SortField, err error) {
-	sf.Expr, err = ExprFromProto(f.Expr, baseSchema, reg)
+	sf.Expr, err = ExprFromProto(f.GetExpr(), baseSchema, reg)
 	if err != nil {
 		return
 	}
@@ -150,11 +150,11 @@ func BoundFromProto(b *proto.Expression_WindowFunction_Bound) Bound {
 
 	switch t := b.Kind.(type) {
 	case *proto.Expression_WindowFunction_Bound_Preceding_:
-		return PrecedingBound(t.Preceding.Offset)
+		return PrecedingBound(t.Preceding.GetOffset())
 	case *proto.Expression_WindowFunction_Bound_CurrentRow_:
 		return CurrentRow{}
 	case *proto.Expression_WindowFunction_Bound_Following_:
-		return FollowingBound(t.Following.Offset)
+		return FollowingBound(t.Following.GetOffset())
 	case *proto.Expression_WindowFunction_Bound_Unbounded_:
 		return Unbounded{}
 	}
@@ -335,9 +335,9 @@ func (s *ScalarFunction) String() string {
 			if i != 0 {
 				b.WriteString(", ")
 			}
-			b.WriteString(o.Name)
+			b.WriteString(o.GetName())
 			b.WriteString(": [")
-			b.WriteString(strings.Join(o.Preference, ","))
+			b.WriteString(strings.Join(o.GetPreference(), ","))
 			b.WriteString("]")
 		}
 		b.WriteString("}")
@@ -583,7 +583,7 @@ func (w *WindowFunction) String() string {
 			if i != 0 {
 				b.WriteString(", ")
 			}
-			fmt.Fprintf(&b, "%s => %v", opt.Name, opt.Preference)
+			fmt.Fprintf(&b, "%s => %v", opt.GetName(), opt.GetPreference())
 		}
 		b.WriteString("}]")
 	}
@@ -654,7 +654,7 @@ func (w *WindowFunction) Equals(other Expression) bool {
 	case w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
 		return false
 	case !slices.EqualFunc(w.options, rhs.options, func(l, r *types.FunctionOption) bool {
-		return l.Name == r.Name && slices.Equal(l.Preference, r.Preference)
+		return l.GetName() == r.GetName() && slices.Equal(l.GetPreference(), r.GetPreference())
 	}):
 		return false
 	case !slices.EqualFunc(w.Partitions, rhs.Partitions, exprEqual):
@@ -859,11 +859,14 @@ func NewCustomAggregateFunc(
 func NewAggregateFunctionFromProto(
 	agg *proto.AggregateFunction, baseSchema *types.RecordType, reg ExtensionRegistry,
 ) (*AggregateFunction, error) {
-	if agg.OutputType == nil {
+	if agg.GetOutputType() == nil {
 		return nil, fmt.Errorf("%w: missing output type", substraitgo.ErrInvalidExpr)
 	}
+	outputType, err := decodeType(agg.OutputType)
+	if err != nil {
+		return nil, err
+	}
 
-	var err error
 	args := make([]types.FuncArg, len(agg.Arguments))
 	for i, a := range agg.Arguments {
 		if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
@@ -892,7 +895,7 @@ func NewAggregateFunctionFromProto(
 		declaration: decl,
 		args:        args,
 		options:     agg.Options,
-		outputType:  types.TypeFromProto(agg.OutputType),
+		outputType:  outputType,
 		phase:       agg.Phase,
 		invocation:  agg.Invocation,
 		Sorts:       sorts,
diff --git a/expr/literals.go b/expr/literals.go
index ae00a0e..9fe0939 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1194,8 +1194,8 @@ func validateUserDefinedLiteralProto(u *proto.Expression_Literal_UserDefined) er
 		return fmt.Errorf("user-defined literal has no value")
 	}
 	for _, p := range u.GetTypeParameters() {
-		if p.GetParameter() == nil {
-			return fmt.Errorf("user-defined literal has an unset type parameter")
+		if types.TypeParamFromProto(p) == nil {
+			return fmt.Errorf("user-defined literal has an unset or malformed type parameter")
 		}
 	}
 	return nil
diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 433a64a..fd9e264 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -636,10 +636,10 @@ type TopLevel interface {
 func GetExtensionSet(plan TopLevel, c *Collection) (Set, error) {
 	urns := make(map[uint32]string)
 	for _, urn := range plan.GetExtensionUrns() {
-		if other, ok := urns[urn.ExtensionUrnAnchor]; ok && other != urn.Urn {
-			return nil, fmt.Errorf("%w: URN anchor %d is declared for both %q and %q", substraitgo.ErrKeyExists, urn.ExtensionUrnAnchor, other, urn.Urn)
+		if other, ok := urns[urn.GetExtensionUrnAnchor()]; ok && other != urn.GetUrn() {
+			return nil, fmt.Errorf("%w: URN anchor %d is declared for both %q and %q", substraitgo.ErrKeyExists, urn.GetExtensionUrnAnchor(), other, urn.GetUrn())
 		}
-		urns[urn.ExtensionUrnAnchor] = urn.Urn
+		urns[urn.GetExtensionUrnAnchor()] = urn.GetUrn()
 	}
 
 	ret := &set{
@@ -665,40 +665,40 @@ func GetExtensionSet(plan TopLevel, c *Collection) (Set, error) {
 	}
 
 	for _, ext := range plan.GetExtensions() {
-		switch e := ext.MappingType.(type) {
+		switch e := ext.GetMappingType().(type) {
 		case *extensions.SimpleExtensionDeclaration_ExtensionTypeVariation_:
 			etv := e.ExtensionTypeVariation
-			urn, err := resolveRefToURN(etv.ExtensionUrnReference)
+			urn, err := resolveRefToURN(etv.GetExtensionUrnReference())
 			if err != nil {
 				return nil, err
 			}
-			id := TypeVariationID{URN: urn, Name: etv.Name}
-			if other, ok := ret.typeVariationMap[etv.TypeVariationAnchor]; ok && other != id {
-				return nil, fmt.Errorf("%w: type variation anchor %d is declared for both %v and %v", substraitgo.ErrKeyExists, etv.TypeVariationAnchor, other, id)
+			id := TypeVariationID{URN: urn, Name: etv.GetName()}
+			if other, ok := ret.typeVariationMap[etv.GetTypeVariationAnchor()]; ok && other != id {
+				return nil, fmt.Errorf("%w: type variation anchor %d is declared for both %v and %v", substraitgo.ErrKeyExists, etv.GetTypeVariationAnchor(), other, id)
 			}
-			ret.encodeTypeVariation(etv.TypeVariationAnchor, id)
+			ret.encodeTypeVariation(etv.GetTypeVariationAnchor(), id)
 		case *extensions.SimpleExtensionDeclaration_ExtensionType_:
 			et := e.ExtensionType
-			urn, err := resolveRefToURN(et.ExtensionUrnReference)
+			urn, err := resolveRefToURN(et.GetExtensionUrnReference())
 			if err != nil {
 				return nil, err
 			}
-			id := TypeID{URN: urn, Name: et.Name}
-			if other, ok := ret.typesMap[et.TypeAnchor]; ok && other != id {
-				return nil, fmt.Errorf("%w: type anchor %d is declared for both %v and %v", substraitgo.ErrKeyExists, et.TypeAnchor, other, id)
+			id := TypeID{URN: urn, Name: et.GetName()}
+			if other, ok := ret.typesMap[et.GetTypeAnchor()]; ok && other != id {
+				return nil, fmt.Errorf("%w: type anchor %d is declared for both %v and %v", substraitgo.ErrKeyExists, et.GetTypeAnchor(), other, id)
 			}
-			ret.encodeType(et.TypeAnchor, id)
+			ret.encodeType(et.GetTypeAnchor(), id)
 		case *extensions.SimpleExtensionDeclaration_ExtensionFunction_:
 			ef := e.ExtensionFunction
-			urn, err := resolveRefToURN(ef.ExtensionUrnReference)
+			urn, err := resolveRefToURN(ef.GetExtensionUrnReference())
 			if err != nil {
 				return nil, err
 			}
-			id := FunctionID{URN: urn, Name: ef.Name}
-			if other, ok := ret.funcMap[ef.FunctionAnchor]; ok && other != id {
-				return nil, fmt.Errorf("%w: function anchor %d is declared for both %v and %v", substraitgo.ErrKeyExists, ef.FunctionAnchor, other, id)
+			id := FunctionID{URN: urn, Name: ef.GetName()}
+			if other, ok := ret.funcMap[ef.GetFunctionAnchor()]; ok && other != id {
+				return nil, fmt.Errorf("%w: function anchor %d is declared for both %v and %v", substraitgo.ErrKeyExists, ef.GetFunctionAnchor(), other, id)
 			}
-			ret.encodeFunc(ef.FunctionAnchor, id)
+			ret.encodeFunc(ef.GetFunctionAnchor(), id)
 		}
 	}
 
diff --git a/plan/internal/helper.go b/plan/internal/helper.go
index 99bfc78..a134d77 100644
--- a/plan/internal/helper.go
+++ b/plan/internal/helper.go
@@ -9,8 +9,8 @@ import (
 )
 
 func VirtualTableExpressionFromProto(s *proto.Expression_Nested_Struct, reg expr.ExtensionRegistry) (expr.VirtualTableExpressionValue, error) {
-	fields := make(expr.VirtualTableExpressionValue, len(s.Fields))
-	for i, f := range s.Fields {
+	fields := make(expr.VirtualTableExpressionValue, len(s.GetFields()))
+	for i, f := range s.GetFields() {
 		val, err := expr.ExprFromProto(f, nil, reg)
 		if err != nil {
 			return nil, err
@@ -21,8 +21,8 @@ func VirtualTableExpressionFromProto(s *proto.Expression_Nested_Struct, reg expr
 }
 
 func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) (expr.VirtualTableExpressionValue, error) {
-	fields := make(expr.VirtualTableExpressionValue, len(s.Fields))
-	for i, f := range s.Fields {
+	fields := make(expr.VirtualTableExpressionValue, len(s.GetFields()))
+	for i, f := range s.GetFields() {
 		lit := expr.LiteralFromProto(f)
 		if lit == nil {
 			return nil, fmt.Errorf("%w: invalid virtual table literal %v", substraitgo.ErrInvalidExpr, f)
diff --git a/plan/plan.go b/plan/plan.go
index ed6a353..4a8cc3b 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -87,7 +87,7 @@ type Relation struct {
 func (r *Relation) FromProto(p *proto.PlanRel, reg expr.ExtensionRegistry) error {
 	r.root, r.rel = nil, nil
 
-	switch rel := p.RelType.(type) {
+	switch rel := p.GetRelType().(type) {
 	case *proto.PlanRel_Rel:
 		input, err := RelFromProto(rel.Rel, reg)
 		if err != nil {
@@ -97,12 +97,12 @@ func (r *Relation) FromProto(p *proto.PlanRel, reg expr.ExtensionRegistry) error
 		r.rel = input
 		return nil
 	case *proto.PlanRel_Root:
-		input, err := RelFromProto(rel.Root.Input, reg)
+		input, err := RelFromProto(rel.Root.GetInput(), reg)
 		if err != nil {
 			return err
 		}
 
-		names := rel.Root.Names
+		names := rel.Root.GetNames()
 		if isRecordTypeSupported(input) {
 			if err := validateRootNamesForSchema(input.RecordType(), names); err != nil {
 				return err
@@ -239,12 +239,12 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 		return nil, err
 	}
 	ret := &Plan{
-		version:          plan.Version,
+		version:          plan.GetVersion(),
 		extensions:       extSet,
-		advExtension:     plan.AdvancedExtensions,
-		expectedTypeURLs: plan.ExpectedTypeUrls,
-		typeAliases:      plan.TypeAliases,
-		relations:        make([]Relation, len(plan.Relations)),
+		advExtension:     plan.GetAdvancedExtensions(),
+		expectedTypeURLs: plan.GetExpectedTypeUrls(),
+		typeAliases:      plan.GetTypeAliases(),
+		relations:        make([]Relation, len(plan.GetRelations())),
 	}
 
 	ret.reg = expr.NewExtensionRegistry(ret.extensions, c)
@@ -254,15 +254,15 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 			return nil, err
 		}
 	}
-	for i, r := range plan.Relations {
+	for i, r := range plan.GetRelations() {
 		if err := ret.relations[i].FromProto(r, ret.reg); err != nil {
 			return nil, err
 		}
 	}
 
-	if len(plan.ParameterBindings) > 0 {
-		ret.parameterBindings = make([]DynamicParameterBinding, len(plan.ParameterBindings))
-		for i, pb := range plan.ParameterBindings {
+	if len(plan.GetParameterBindings()) > 0 {
+		ret.parameterBindings = make([]DynamicParameterBinding, len(plan.GetParameterBindings()))
+		for i, pb := range plan.GetParameterBindings() {
 			value := expr.LiteralFromProto(pb.GetValue())
 			if value == nil {
 				return nil, fmt.Errorf("%w: invalid value bound to parameter %d", substraitgo.ErrInvalidExpr, pb.GetParameterAnchor())
@@ -472,6 +472,11 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			return nil, err
 		}
 	}
+	for _, idx := range out.OutputMapping() {
+		if idx < 0 {
+			return nil, fmt.Errorf("%w: output mapping refers to column %d", substraitgo.ErrInvalidRel, idx)
+		}
+	}
 	return out, nil
 }
 
@@ -506,39 +511,39 @@ func validateOutputMapping(rel Rel) error {
 }
 
 func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
-	switch rel := rel.RelType.(type) {
+	switch rel := rel.GetRelType().(type) {
 	case *proto.Rel_Read:
 		var out ReadRel
-		switch readType := rel.Read.ReadType.(type) {
+		switch readType := rel.Read.GetReadType().(type) {
 		case *proto.ReadRel_ExtensionTable_:
-			out = &ExtensionTableReadRel{detail: readType.ExtensionTable.Detail}
+			out = &ExtensionTableReadRel{detail: readType.ExtensionTable.GetDetail()}
 		case *proto.ReadRel_LocalFiles_:
-			items := make([]FileOrFiles, len(readType.LocalFiles.Items))
-			for i, item := range readType.LocalFiles.Items {
+			items := make([]FileOrFiles, len(readType.LocalFiles.GetItems()))
+			for i, item := range readType.LocalFiles.GetItems() {
 				items[i].fromProto(item)
 			}
 			out = &LocalFileReadRel{
 				items:        items,
-				advExtension: readType.LocalFiles.AdvancedExtension,
+				advExtension: readType.LocalFiles.GetAdvancedExtension(),
 			}
 		case *proto.ReadRel_NamedTable_:
 			out = &NamedTableReadRel{
-				names:        readType.NamedTable.Names,
-				advExtension: readType.NamedTable.AdvancedExtension,
+				names:        readType.NamedTable.GetNames(),
+				advExtension: readType.NamedTable.GetAdvancedExtension(),
 			}
 		case *proto.ReadRel_VirtualTable_:
-			if len(readType.VirtualTable.Values) > 0 && len(readType.VirtualTable.Expressions) > 0 {
+			if len(readType.VirtualTable.GetValues()) > 0 && len(readType.VirtualTable.GetExpressions()) > 0 {
 				return nil, fmt.Errorf("VirtualTable cannot declare both Values and Expressions")
 			}
 			var values []expr.VirtualTableExpressionValue
-			for _, v := range readType.VirtualTable.Values {
+			for _, v := range readType.VirtualTable.GetValues() {
 				row, err := internal.VirtualTableExprFromLiteralProto(v)
 				if err != nil {
 					return nil, err
 				}
 				values = append(values, row)
 			}
-			for _, v := range readType.VirtualTable.Expressions {
+			for _, v := range readType.VirtualTable.GetExpressions() {
 				row, err := internal.VirtualTableExpressionFromProto(v, reg)
 				if err != nil {
 					return nil, err
@@ -550,7 +555,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 				values: values,
 			}
 		case *proto.ReadRel_IcebergTable_:
-			icebergTableType := readType.IcebergTable.TableType
+			icebergTableType := readType.IcebergTable.GetTableType()
 			if icebergTableType == nil {
 				return nil, fmt.Errorf("%w: IcebergTableType is required for IcebergTableReadRel", substraitgo.ErrInvalidRel)
 			}
@@ -559,11 +564,11 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			}
 			if direct, ok := icebergTableType.(*proto.ReadRel_IcebergTable_Direct); ok {
 				tableType := &Direct{
-					MetadataUri: direct.Direct.MetadataUri,
+					MetadataUri: direct.Direct.GetMetadataUri(),
 				}
-				if snapshotId, ok := direct.Direct.Snapshot.(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId); ok {
+				if snapshotId, ok := direct.Direct.GetSnapshot().(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId); ok {
 					tableType.setSnapshot(SnapshotId(snapshotId.SnapshotId))
-				} else if snapshotTimestamp, ok := direct.Direct.Snapshot.(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp); ok {
+				} else if snapshotTimestamp, ok := direct.Direct.GetSnapshot().(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp); ok {
 					tableType.setSnapshot(SnapshotTimestamp(snapshotTimestamp.SnapshotTimestamp))
 				}
 				out = &IcebergTableReadRel{
@@ -582,13 +587,13 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Filter:
-		input, err := inputFromProto(rel.Filter.Input, reg)
+		input, err := inputFromProto(rel.Filter.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to FilterRel: %w", err)
 		}
 
 		base := input.RecordType()
-		cond, err := expr.ExprFromProto(rel.Filter.Condition, &base, reg)
+		cond, err := expr.ExprFromProto(rel.Filter.GetCondition(), &base, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting condition for FilterRel: %w", err)
 		}
@@ -596,27 +601,27 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out := &FilterRel{
 			input:        input,
 			cond:         cond,
-			advExtension: rel.Filter.AdvancedExtension,
+			advExtension: rel.Filter.GetAdvancedExtension(),
 		}
-		if rel.Filter.Common != nil {
-			out.fromProtoCommon(rel.Filter.Common)
+		if rel.Filter.GetCommon() != nil {
+			out.fromProtoCommon(rel.Filter.GetCommon())
 		}
 		return out, nil
 	case *proto.Rel_Fetch:
-		input, err := inputFromProto(rel.Fetch.Input, reg)
+		input, err := inputFromProto(rel.Fetch.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to FetchRel: %w", err)
 		}
 
 		var offset int64
-		if off, ok := rel.Fetch.OffsetMode.(*proto.FetchRel_Offset); ok {
+		if off, ok := rel.Fetch.GetOffsetMode().(*proto.FetchRel_Offset); ok {
 			offset = off.Offset
 		} else {
 			return nil, fmt.Errorf("%w: missing required Offset field for Fetch Relation", substraitgo.ErrInvalidRel)
 		}
 
 		var count int64
-		if cnt, ok := rel.Fetch.CountMode.(*proto.FetchRel_Count); ok {
+		if cnt, ok := rel.Fetch.GetCountMode().(*proto.FetchRel_Count); ok {
 			count = cnt.Count
 		} else {
 			return nil, fmt.Errorf("%w: missing required Count field for Fetch Relation", substraitgo.ErrInvalidRel)
@@ -626,14 +631,14 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			input:        input,
 			offset:       offset,
 			count:        count,
-			advExtension: rel.Fetch.AdvancedExtension,
+			advExtension: rel.Fetch.GetAdvancedExtension(),
 		}
-		if rel.Fetch.Common != nil {
-			out.fromProtoCommon(rel.Fetch.Common)
+		if rel.Fetch.GetCommon() != nil {
+			out.fromProtoCommon(rel.Fetch.GetCommon())
 		}
 		return out, nil
 	case *proto.Rel_Aggregate:
-		input, err := inputFromProto(rel.Aggregate.Input, reg)
+		input, err := inputFromProto(rel.Aggregate.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to AggregateRel: %w", err)
 		}
@@ -641,26 +646,26 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		base := input.RecordType()
 		var groupingExpressions []expr.Expression
 		var groupingReferences [][]uint32
-		if len(rel.Aggregate.GroupingExpressions) > 0 {
-			for _, e := range rel.Aggregate.GroupingExpressions {
+		if len(rel.Aggregate.GetGroupingExpressions()) > 0 {
+			for _, e := range rel.Aggregate.GetGroupingExpressions() {
 				expr, err := expr.ExprFromProto(e, &base, reg)
 				if err != nil {
 					return nil, fmt.Errorf("error getting grouping expr for AggregateRel: %w", err)
 				}
 				groupingExpressions = append(groupingExpressions, expr)
 			}
-			for _, g := range rel.Aggregate.Groupings {
-				groupingReferences = append(groupingReferences, g.ExpressionReferences)
+			for _, g := range rel.Aggregate.GetGroupings() {
+				groupingReferences = append(groupingReferences, g.GetExpressionReferences())
 			}
 		} else { // support old style grouping for backward compatibility
-			groups := make([][]expr.Expression, len(rel.Aggregate.Groupings))
-			for i, g := range rel.Aggregate.Groupings {
-				if len(g.GroupingExpressions) == 0 && len(g.ExpressionReferences) > 0 {
+			groups := make([][]expr.Expression, len(rel.Aggregate.GetGroupings()))
+			for i, g := range rel.Aggregate.GetGroupings() {
+				if len(g.GetGroupingExpressions()) == 0 && len(g.GetExpressionReferences()) > 0 {
 					return nil, fmt.Errorf("%w: grouping set %d of AggregateRel refers to expressions that are not there",
 						substraitgo.ErrInvalidRel, i)
 				}
-				groups[i] = make([]expr.Expression, len(g.GroupingExpressions))
-				for j, e := range g.GroupingExpressions {
+				groups[i] = make([]expr.Expression, len(g.GetGroupingExpressions()))
+				for j, e := range g.GetGroupingExpressions() {
 					groups[i][j], err = expr.ExprFromProto(e, &base, reg)
 					if err != nil {
 						return nil, fmt.Errorf("error getting grouping expr [%d][%d] for AggregateRel: %w",
@@ -680,15 +685,15 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			}
 		}
 
-		measures := make([]AggRelMeasure, len(rel.Aggregate.Measures))
-		for i, m := range rel.Aggregate.Measures {
-			measures[i].measure, err = expr.NewAggregateFunctionFromProto(m.Measure, &base, reg)
+		measures := make([]AggRelMeasure, len(rel.Aggregate.GetMeasures()))
+		for i, m := range rel.Aggregate.GetMeasures() {
+			measures[i].measure, err = expr.NewAggregateFunctionFromProto(m.GetMeasure(), &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting AggregateFunction for measure %d: %w", i, err)
 			}
 
-			if m.Filter != nil {
-				measures[i].filter, err = expr.ExprFromProto(m.Filter, &base, reg)
+			if m.GetFilter() != nil {
+				measures[i].filter, err = expr.ExprFromProto(m.GetFilter(), &base, reg)
 				if err != nil {
 					return nil, fmt.Errorf("error getting filter for Aggregate Measure %d: %w", i, err)
 				}
@@ -700,19 +705,19 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			measures:            measures,
 			groupingReferences:  groupingReferences,
 			groupingExpressions: groupingExpressions,
-			advExtension:        rel.Aggregate.AdvancedExtension,
+			advExtension:        rel.Aggregate.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.Aggregate.Common)
+		out.fromProtoCommon(rel.Aggregate.GetCommon())
 		return out, nil
 	case *proto.Rel_Sort:
-		input, err := inputFromProto(rel.Sort.Input, reg)
+		input, err := inputFromProto(rel.Sort.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to SortRel: %w", err)
 		}
 
 		base := input.RecordType()
-		sorts := make([]expr.SortField, len(rel.Sort.Sorts))
-		for i, s := range rel.Sort.Sorts {
+		sorts := make([]expr.SortField, len(rel.Sort.GetSorts()))
+		for i, s := range rel.Sort.GetSorts() {
 			sorts[i], err = expr.SortFieldFromProto(s, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting SortField %d for SortRel: %w", i, err)
@@ -726,21 +731,21 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out := &SortRel{
 			input:        input,
 			sorts:        sorts,
-			advExtension: rel.Sort.AdvancedExtension,
+			advExtension: rel.Sort.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.Sort.Common)
+		out.fromProtoCommon(rel.Sort.GetCommon())
 		return out, nil
 	case *proto.Rel_Join:
-		if rel.Join.Type == JoinTypeUnspecified {
+		if rel.Join.GetType() == JoinTypeUnspecified {
 			return nil, fmt.Errorf("%w: JoinRel must not have unspecified join type", substraitgo.ErrInvalidRel)
 		}
 
-		left, err := inputFromProto(rel.Join.Left, reg)
+		left, err := inputFromProto(rel.Join.GetLeft(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to JoinRel: %w", err)
 		}
 
-		right, err := inputFromProto(rel.Join.Right, reg)
+		right, err := inputFromProto(rel.Join.GetRight(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to JoinRel: %w", err)
 		}
@@ -748,19 +753,19 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out := &JoinRel{
 			left:         left,
 			right:        right,
-			joinType:     rel.Join.Type,
-			advExtension: rel.Join.AdvancedExtension,
+			joinType:     rel.Join.GetType(),
+			advExtension: rel.Join.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.Join.Common)
+		out.fromProtoCommon(rel.Join.GetCommon())
 
 		base := out.JoinedRecordType()
-		out.expr, err = expr.ExprFromProto(rel.Join.Expression, &base, reg)
+		out.expr, err = expr.ExprFromProto(rel.Join.GetExpression(), &base, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting expr for JoinRel: %w", err)
 		}
 
-		if rel.Join.PostJoinFilter != nil {
-			out.postJoinFilter, err = expr.ExprFromProto(rel.Join.PostJoinFilter, &base, reg)
+		if rel.Join.GetPostJoinFilter() != nil {
+			out.postJoinFilter, err = expr.ExprFromProto(rel.Join.GetPostJoinFilter(), &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error parsing PostJoinFilter for JoinRel: %w", err)
 			}
@@ -768,15 +773,15 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Project:
-		input, err := inputFromProto(rel.Project.Input, reg)
+		input, err := inputFromProto(rel.Project.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to ProjectRel: %w", err)
 		}
 
 		baseSchema := input.RecordType()
 
-		exprs := make([]expr.Expression, len(rel.Project.Expressions))
-		for i, e := range rel.Project.Expressions {
+		exprs := make([]expr.Expression, len(rel.Project.GetExpressions()))
+		for i, e := range rel.Project.GetExpressions() {
 			exprs[i], err = expr.ExprFromProto(e, &baseSchema, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting expr %d for ProjectRel: %w", i, err)
@@ -790,28 +795,28 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out := &ProjectRel{
 			input:        input,
 			exprs:        exprs,
-			advExtension: rel.Project.AdvancedExtension,
+			advExtension: rel.Project.GetAdvancedExtension(),
 		}
-		if rel.Project.Common != nil {
-			out.fromProtoCommon(rel.Project.Common)
+		if rel.Project.GetCommon() != nil {
+			out.fromProtoCommon(rel.Project.GetCommon())
 		}
 		return out, nil
 	case *proto.Rel_Set:
-		inputs := make([]Rel, len(rel.Set.Inputs))
+		inputs := make([]Rel, len(rel.Set.GetInputs()))
 		if len(inputs) < 2 {
 			return nil, fmt.Errorf("%w: SetRel must have at least 2 inputs, only found %d",
 				substraitgo.ErrInvalidRel, len(inputs))
 		}
 
 		var err error
-		for i, r := range rel.Set.Inputs {
+		for i, r := range rel.Set.GetInputs() {
 			inputs[i], err = inputFromProto(r, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting input %d for SetRel: %w", i, err)
 			}
 		}
 
-		if rel.Set.Op == SetOpUnspecified {
+		if rel.Set.GetOp() == SetOpUnspecified {
 			return nil, fmt.Errorf("%w: set operation must not be unspecified", substraitgo.ErrInvalidRel)
 		}
 
@@ -826,19 +831,19 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		out := &SetRel{
 			inputs:       inputs,
-			op:           rel.Set.Op,
-			advExtension: rel.Set.AdvancedExtension,
+			op:           rel.Set.GetOp(),
+			advExtension: rel.Set.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.Set.Common)
+		out.fromProtoCommon(rel.Set.GetCommon())
 
 		return out, nil
 	case *proto.Rel_ExtensionSingle:
-		input, err := inputFromProto(rel.ExtensionSingle.Input, reg)
+		input, err := inputFromProto(rel.ExtensionSingle.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to ExtensionSingle: %w", err)
 		}
 
-		definition, err := decodeExtensionDef(reg, rel.ExtensionSingle.Detail)
+		definition, err := decodeExtensionDef(reg, rel.ExtensionSingle.GetDetail())
 		if err != nil {
 			return nil, fmt.Errorf("error decoding ExtensionSingle detail: %w", err)
 		}
@@ -846,20 +851,20 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			input:      input,
 			definition: definition,
 		}
-		out.fromProtoCommon(rel.ExtensionSingle.Common)
+		out.fromProtoCommon(rel.ExtensionSingle.GetCommon())
 
 		return out, nil
 	case *proto.Rel_ExtensionMulti:
-		inputs := make([]Rel, len(rel.ExtensionMulti.Inputs))
+		inputs := make([]Rel, len(rel.ExtensionMulti.GetInputs()))
 		var err error
-		for i, r := range rel.ExtensionMulti.Inputs {
+		for i, r := range rel.ExtensionMulti.GetInputs() {
 			inputs[i], err = inputFromProto(r, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting input %d for ExtensionMultiRel: %w", i, err)
 			}
 		}
 
-		definition, err := decodeExtensionDef(reg, rel.ExtensionMulti.Detail)
+		definition, err := decodeExtensionDef(reg, rel.ExtensionMulti.GetDetail())
 		if err != nil {
 			return nil, fmt.Errorf("error decoding ExtensionMulti detail: %w", err)
 		}
@@ -867,27 +872,27 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			inputs:     inputs,
 			definition: definition,
 		}
-		out.fromProtoCommon(rel.ExtensionMulti.Common)
+		out.fromProtoCommon(rel.ExtensionMulti.GetCommon())
 
 		return out, nil
 	case *proto.Rel_ExtensionLeaf:
-		definition, err := decodeExtensionDef(reg, rel.ExtensionLeaf.Detail)
+		definition, err := decodeExtensionDef(reg, rel.ExtensionLeaf.GetDetail())
 		if err != nil {
 			return nil, fmt.Errorf("error decoding ExtensionLeaf detail: %w", err)
 		}
 		out := &ExtensionLeafRel{
 			definition: definition,
 		}
-		out.fromProtoCommon(rel.ExtensionLeaf.Common)
+		out.fromProtoCommon(rel.ExtensionLeaf.GetCommon())
 
 		return out, nil
 	case *proto.Rel_Cross:
-		left, err := inputFromProto(rel.Cross.Left, reg)
+		left, err := inputFromProto(rel.Cross.GetLeft(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to CrossRel: %w", err)
 		}
 
-		right, err := inputFromProto(rel.Cross.Right, reg)
+		right, err := inputFromProto(rel.Cross.GetRight(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to CrossRel: %w", err)
 		}
@@ -895,17 +900,17 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out := &CrossRel{
 			left:         left,
 			right:        right,
-			advExtension: rel.Cross.AdvancedExtension,
+			advExtension: rel.Cross.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.Cross.Common)
+		out.fromProtoCommon(rel.Cross.GetCommon())
 		return out, nil
 	case *proto.Rel_HashJoin:
-		left, err := inputFromProto(rel.HashJoin.Left, reg)
+		left, err := inputFromProto(rel.HashJoin.GetLeft(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to HashJoinRel: %w", err)
 		}
 
-		right, err := inputFromProto(rel.HashJoin.Right, reg)
+		right, err := inputFromProto(rel.HashJoin.GetRight(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to HashJoin: %w", err)
 		}
@@ -913,7 +918,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		leftBase, rightBase := left.RecordType(), right.RecordType()
 
 		keys, err := comparisonJoinKeysFromProto(
-			rel.HashJoin.Keys, rel.HashJoin.LeftKeys, rel.HashJoin.RightKeys, &leftBase, &rightBase, reg)
+			rel.HashJoin.GetKeys(), rel.HashJoin.GetLeftKeys(), rel.HashJoin.GetRightKeys(), &leftBase, &rightBase, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting keys for HashJoinRel: %w", err)
 		}
@@ -922,15 +927,15 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			left:         left,
 			right:        right,
 			keys:         keys,
-			joinType:     HashMergeJoinType(rel.HashJoin.Type),
-			buildInput:   rel.HashJoin.BuildInput,
-			advExtension: rel.HashJoin.AdvancedExtension,
+			joinType:     HashMergeJoinType(rel.HashJoin.GetType()),
+			buildInput:   rel.HashJoin.GetBuildInput(),
+			advExtension: rel.HashJoin.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.HashJoin.Common)
+		out.fromProtoCommon(rel.HashJoin.GetCommon())
 
-		if rel.HashJoin.PostJoinFilter != nil {
+		if rel.HashJoin.GetPostJoinFilter() != nil {
 			base := out.joinedRecordType()
-			out.postJoinFilter, err = expr.ExprFromProto(rel.HashJoin.PostJoinFilter, &base, reg)
+			out.postJoinFilter, err = expr.ExprFromProto(rel.HashJoin.GetPostJoinFilter(), &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for HashJoinRel: %w", err)
 			}
@@ -938,12 +943,12 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_MergeJoin:
-		left, err := inputFromProto(rel.MergeJoin.Left, reg)
+		left, err := inputFromProto(rel.MergeJoin.GetLeft(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to MergeJoinRel: %w", err)
 		}
 
-		right, err := inputFromProto(rel.MergeJoin.Right, reg)
+		right, err := inputFromProto(rel.MergeJoin.GetRight(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to MergeJoinRel: %w", err)
 		}
@@ -951,7 +956,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		leftBase, rightBase := left.RecordType(), right.RecordType()
 
 		keys, err := comparisonJoinKeysFromProto(
-			rel.MergeJoin.Keys, rel.MergeJoin.LeftKeys, rel.MergeJoin.RightKeys, &leftBase, &rightBase, reg)
+			rel.MergeJoin.GetKeys(), rel.MergeJoin.GetLeftKeys(), rel.MergeJoin.GetRightKeys(), &leftBase, &rightBase, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting keys for MergeJoinRel: %w", err)
 		}
@@ -960,14 +965,14 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			left:         left,
 			right:        right,
 			keys:         keys,
-			joinType:     HashMergeJoinType(rel.MergeJoin.Type),
-			advExtension: rel.MergeJoin.AdvancedExtension,
+			joinType:     HashMergeJoinType(rel.MergeJoin.GetType()),
+			advExtension: rel.MergeJoin.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.MergeJoin.Common)
+		out.fromProtoCommon(rel.MergeJoin.GetCommon())
 
-		if rel.MergeJoin.PostJoinFilter != nil {
+		if rel.MergeJoin.GetPostJoinFilter() != nil {
 			base := out.joinedRecordType()
-			out.postJoinFilter, err = expr.ExprFromProto(rel.MergeJoin.PostJoinFilter, &base, reg)
+			out.postJoinFilter, err = expr.ExprFromProto(rel.MergeJoin.GetPostJoinFilter(), &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for MergeJoin: %w", err)
 			}
@@ -975,35 +980,38 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Write:
-		input, err := inputFromProto(rel.Write.Input, reg)
+		input, err := inputFromProto(rel.Write.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to WriteRel: %w", err)
 		}
-		tableSchema := types.NewNamedStructFromProto(rel.Write.TableSchema)
+		tableSchema, err := types.DecodeNamedStruct(rel.Write.GetTableSchema())
+		if err != nil {
+			return nil, fmt.Errorf("error getting table schema of WriteRel: %w", err)
+		}
 		out := &NamedTableWriteRel{
 			tableSchema: tableSchema,
-			op:          rel.Write.Op,
+			op:          rel.Write.GetOp(),
 			input:       input,
-			outputMode:  rel.Write.Output,
-			createMode:  rel.Write.CreateMode,
+			outputMode:  rel.Write.GetOutput(),
+			createMode:  rel.Write.GetCreateMode(),
 
-			relAdvExtension: rel.Write.AdvancedExtension,
+			relAdvExtension: rel.Write.GetAdvancedExtension(),
 		}
-		if rel.Write.Common != nil {
-			out.fromProtoCommon(rel.Write.Common)
+		if rel.Write.GetCommon() != nil {
+			out.fromProtoCommon(rel.Write.GetCommon())
 		}
-		switch rel.Write.Op {
+		switch rel.Write.GetOp() {
 		case proto.WriteRel_WRITE_OP_CTAS, proto.WriteRel_WRITE_OP_INSERT, proto.WriteRel_WRITE_OP_DELETE,
 			proto.WriteRel_WRITE_OP_UPDATE:
-			switch writeType := rel.Write.WriteType.(type) {
+			switch writeType := rel.Write.GetWriteType().(type) {
 			case *proto.WriteRel_NamedTable:
-				out.names = writeType.NamedTable.Names
-				out.advExtension = writeType.NamedTable.AdvancedExtension
+				out.names = writeType.NamedTable.GetNames()
+				out.advExtension = writeType.NamedTable.GetAdvancedExtension()
 			case *proto.WriteRel_ExtensionTable:
 				return nil, fmt.Errorf("%w: ExtensionTable not supported for WriteRel", substraitgo.ErrInvalidRel)
 			}
 		default:
-			return nil, fmt.Errorf("%w: WriteRel not supported for optype %v", substraitgo.ErrInvalidRel, rel.Write.Op)
+			return nil, fmt.Errorf("%w: WriteRel not supported for optype %v", substraitgo.ErrInvalidRel, rel.Write.GetOp())
 		}
 		return out, nil
 	case nil:
diff --git a/plan/relations.go b/plan/relations.go
index 5c388f2..fd9d501 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -63,34 +63,36 @@ type baseReadRel struct {
 }
 
 func (b *baseReadRel) fromProtoReadRel(rel *proto.ReadRel, reg expr.ExtensionRegistry) error {
-	if rel.Common != nil {
-		b.RelCommon.fromProtoCommon(rel.Common)
+	if rel.GetCommon() != nil {
+		b.RelCommon.fromProtoCommon(rel.GetCommon())
 	}
 
-	b.baseSchema = types.NewNamedStructFromProto(rel.BaseSchema)
 	var err error
-	if rel.Filter != nil {
-		b.filter, err = expr.ExprFromProto(rel.Filter, types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
+	if b.baseSchema, err = types.DecodeNamedStruct(rel.GetBaseSchema()); err != nil {
+		return fmt.Errorf("error getting base schema: %w", err)
+	}
+	if rel.GetFilter() != nil {
+		b.filter, err = expr.ExprFromProto(rel.GetFilter(), types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
 		if err != nil {
 			return err
 		}
 	}
 
-	if rel.BestEffortFilter != nil {
-		b.bestEffortFilter, err = expr.ExprFromProto(rel.BestEffortFilter, types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
+	if rel.GetBestEffortFilter() != nil {
+		b.bestEffortFilter, err = expr.ExprFromProto(rel.GetBestEffortFilter(), types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
 		if err != nil {
 			return err
 		}
 	}
 
-	if rel.Projection != nil {
-		b.projection = expr.MaskExpressionFromProto(rel.Projection)
+	if rel.GetProjection() != nil {
+		b.projection = expr.MaskExpressionFromProto(rel.GetProjection())
 		if b.projection == nil {
-			return fmt.Errorf("%w: malformed projection: %s", substraitgo.ErrInvalidRel, rel.Projection)
+			return fmt.Errorf("%w: malformed projection: %s", substraitgo.ErrInvalidRel, rel.GetProjection())
 		}
 	}
 
-	b.advExtension = rel.AdvancedExtension
+	b.advExtension = rel.GetAdvancedExtension()
 	return nil
 }
 
@@ -575,10 +577,10 @@ type FileOrFiles struct {
 }
 
 func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
-	f.PartIndex = p.PartitionIndex
-	f.Start, f.Len = p.Start, p.Length
+	f.PartIndex = p.GetPartitionIndex()
+	f.Start, f.Len = p.GetStart(), p.GetLength()
 
-	switch path := p.PathType.(type) {
+	switch path := p.GetPathType().(type) {
 	case *proto.ReadRel_LocalFiles_FileOrFiles_UriFile:
 		f.PathType, f.Path = URIFile, path.UriFile
 	case *proto.ReadRel_LocalFiles_FileOrFiles_UriFolder:
@@ -589,7 +591,7 @@ func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
 		f.PathType, f.Path = URIPathGlob, path.UriPathGlob
 	}
 
-	switch format := p.FileFormat.(type) {
+	switch format := p.GetFileFormat().(type) {
 	case *proto.ReadRel_LocalFiles_FileOrFiles_Arrow:
 		f.Format = (*ArrowReadOptions)(format.Arrow)
 	case *proto.ReadRel_LocalFiles_FileOrFiles_Dwrf:
@@ -857,11 +859,26 @@ type JoinRel struct {
 func nullableTypes(in []types.Type) []types.Type {
 	out := make([]types.Type, len(in))
 	for i, t := range in {
-		out[i] = t.WithNullability(types.NullabilityNullable)
+		out[i] = nullableType(t)
 	}
 	return out
 }
 
+// nullableType returns the nullable version of a type, which is nil if the
+// type could not be derived.
+func nullableType(t types.Type) types.Type {
+	if t == nil {
+		return nil
+	}
+	return t.WithNullability(types.NullabilityNullable)
+}
+
+// isNullable reports whether a type, which may be nil if it could not be
+// derived, is nullable.
+func isNullable(t types.Type) bool {
+	return t != nil && t.GetNullability() == types.NullabilityNullable
+}
+
 // joinOutputSchema returns the output of a join of the given type before any
 // mapping is applied.
 func joinOutputSchema(joinType JoinType, left, right types.RecordType) types.RecordType {
@@ -1187,7 +1204,7 @@ func (ar *AggregateRel) directOutputSchema() types.RecordType {
 			groupTypes = append(groupTypes, e.GetType())
 		default:
 			// null for the grouping sets that it is not part of
-			groupTypes = append(groupTypes, e.GetType().WithNullability(types.NullabilityNullable))
+			groupTypes = append(groupTypes, nullableType(e.GetType()))
 		}
 	}
 
@@ -1579,26 +1596,26 @@ func (s *SetRel) directOutputSchema() types.RecordType {
 	for i, t := range primary.Types() {
 		secondaryAny, secondaryAll := false, true
 		for _, in := range secondary {
-			if int32(i) < in.FieldCount() && in.GetFieldRef(int32(i)).GetNullability() == types.NullabilityNullable {
+			if i < len(in.Types()) && isNullable(in.Types()[i]) {
 				secondaryAny = true
 			} else {
 				secondaryAll = false
 			}
 		}
 
-		isNullable := t.GetNullability() == types.NullabilityNullable
-		outNullable := isNullable
+		inNullable := isNullable(t)
+		outNullable := inNullable
 		switch s.op {
 		case proto.SetRel_SET_OP_INTERSECTION_PRIMARY:
-			outNullable = isNullable && secondaryAny
+			outNullable = inNullable && secondaryAny
 		case proto.SetRel_SET_OP_INTERSECTION_MULTISET, proto.SetRel_SET_OP_INTERSECTION_MULTISET_ALL:
-			outNullable = isNullable && secondaryAll
+			outNullable = inNullable && secondaryAll
 		case proto.SetRel_SET_OP_UNION_DISTINCT, proto.SetRel_SET_OP_UNION_ALL:
-			outNullable = isNullable || secondaryAny
+			outNullable = inNullable || secondaryAny
 		}
 
 		switch {
-		case outNullable == isNullable:
+		case outNullable == inNullable || t == nil:
 			out[i] = t
 		case outNullable:
 			out[i] = t.WithNullability(types.NullabilityNullable)
@@ -1613,7 +1630,10 @@ func (s *SetRel) directOutputSchema() types.RecordType {
 // except for their nullability.
 func sameFieldTypes(a, b types.RecordType) bool {
 	return slices.EqualFunc(a.Types(), b.Types(), func(x, y types.Type) bool {
-		return x.WithNullability(types.NullabilityNullable).Equals(y.WithNullability(types.NullabilityNullable))
+		if x == nil || y == nil {
+			return x == nil && y == nil
+		}
+		return nullableType(x).Equals(nullableType(y))
 	})
 }
 
diff --git a/plan/subquery.go b/plan/subquery.go
index fecb7af..8c71d6a 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -21,9 +21,9 @@ type ExpressionConverter struct {
 
 // SubqueryFromProto creates a subquery expression from a protobuf message
 func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery, baseSchema *types.RecordType, reg expr.ExtensionRegistry) (expr.Expression, error) {
-	switch subType := sub.SubqueryType.(type) {
+	switch subType := sub.GetSubqueryType().(type) {
 	case *proto.Expression_Subquery_Scalar_:
-		rel, err := inputFromProto(subType.Scalar.Input, reg)
+		rel, err := inputFromProto(subType.Scalar.GetInput(), reg)
 		if err != nil {
 			return nil, err
 		}
@@ -33,8 +33,8 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		return NewScalarSubquery(rel), nil
 
 	case *proto.Expression_Subquery_InPredicate_:
-		needles := make([]expr.Expression, len(subType.InPredicate.Needles))
-		for i, needle := range subType.InPredicate.Needles {
+		needles := make([]expr.Expression, len(subType.InPredicate.GetNeedles()))
+		for i, needle := range subType.InPredicate.GetNeedles() {
 			expr, err := expr.ExprFromProto(needle, baseSchema, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error parsing needle %d in IN predicate: %w", i, err)
@@ -42,7 +42,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 			needles[i] = expr
 		}
 
-		rel, err := inputFromProto(subType.InPredicate.Haystack, reg)
+		rel, err := inputFromProto(subType.InPredicate.GetHaystack(), reg)
 		if err != nil {
 			return nil, err
 		}
@@ -50,25 +50,25 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		return NewInPredicateSubquery(needles, rel), nil
 
 	case *proto.Expression_Subquery_SetPredicate_:
-		tuples, err := inputFromProto(subType.SetPredicate.Tuples, reg)
+		tuples, err := inputFromProto(subType.SetPredicate.GetTuples(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error parsing tuples in set predicate: %w", err)
 		}
-		return NewSetPredicateSubquery(subType.SetPredicate.PredicateOp, tuples), nil
+		return NewSetPredicateSubquery(subType.SetPredicate.GetPredicateOp(), tuples), nil
 	case *proto.Expression_Subquery_SetComparison_:
-		left, err := expr.ExprFromProto(subType.SetComparison.Left, baseSchema, reg)
+		left, err := expr.ExprFromProto(subType.SetComparison.GetLeft(), baseSchema, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error parsing left expression in set comparison: %w", err)
 		}
 
-		right, err := inputFromProto(subType.SetComparison.Right, reg)
+		right, err := inputFromProto(subType.SetComparison.GetRight(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error parsing right relation in set comparison: %w", err)
 		}
 
 		return NewSetComparisonSubquery(
-			subType.SetComparison.ReductionOp,
-			subType.SetComparison.ComparisonOp,
+			subType.SetComparison.GetReductionOp(),
+			subType.SetComparison.GetComparisonOp(),
 			left,
 			right,
 		), nil
diff --git a/types/types.go b/types/types.go
index 2ba1884..4df604a 100644
--- a/types/types.go
+++ b/types/types.go
@@ -222,209 +222,250 @@ type (
 )
 
 // TypeFromProto returns the appropriate Type object from a protobuf
-// type message.
+// type message. It panics if the message is malformed, which DecodeType
+// reports as an error.
 func TypeFromProto(t *proto.Type) Type {
-	switch t := t.Kind.(type) {
+	typ, err := DecodeType(t)
+	if err != nil {
+		panic(err)
+	}
+	return typ
+}
+
+// DecodeType returns the appropriate Type object from a protobuf type
+// message, or an error if the message is malformed.
+func DecodeType(t *proto.Type) (Type, error) {
+	switch t := t.GetKind().(type) {
 	case *proto.Type_Bool:
 		return &BooleanType{
-			Nullability:      Nullability(t.Bool.Nullability),
-			TypeVariationRef: t.Bool.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.Bool.GetNullability()),
+			TypeVariationRef: t.Bool.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_I8_:
 		return &Int8Type{
-			Nullability:      Nullability(t.I8.Nullability),
-			TypeVariationRef: t.I8.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.I8.GetNullability()),
+			TypeVariationRef: t.I8.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_I16_:
 		return &Int16Type{
-			Nullability:      Nullability(t.I16.Nullability),
-			TypeVariationRef: t.I16.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.I16.GetNullability()),
+			TypeVariationRef: t.I16.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_I32_:
 		return &Int32Type{
-			Nullability:      Nullability(t.I32.Nullability),
-			TypeVariationRef: t.I32.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.I32.GetNullability()),
+			TypeVariationRef: t.I32.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_I64_:
 		return &Int64Type{
-			Nullability:      Nullability(t.I64.Nullability),
-			TypeVariationRef: t.I64.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.I64.GetNullability()),
+			TypeVariationRef: t.I64.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_Fp32:
 		return &Float32Type{
-			Nullability:      Nullability(t.Fp32.Nullability),
-			TypeVariationRef: t.Fp32.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.Fp32.GetNullability()),
+			TypeVariationRef: t.Fp32.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_Fp64:
 		return &Float64Type{
-			Nullability:      Nullability(t.Fp64.Nullability),
-			TypeVariationRef: t.Fp64.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.Fp64.GetNullability()),
+			TypeVariationRef: t.Fp64.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_String_:
 		return &StringType{
-			Nullability:      Nullability(t.String_.Nullability),
-			TypeVariationRef: t.String_.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.String_.GetNullability()),
+			TypeVariationRef: t.String_.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_Binary_:
 		return &BinaryType{
-			Nullability:      Nullability(t.Binary.Nullability),
-			TypeVariationRef: t.Binary.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.Binary.GetNullability()),
+			TypeVariationRef: t.Binary.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_Timestamp_:
 		return &TimestampType{
-			Nullability:      Nullability(t.Timestamp.Nullability),
-			TypeVariationRef: t.Timestamp.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.Timestamp.GetNullability()),
+			TypeVariationRef: t.Timestamp.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_Date_:
 		return &DateType{
-			Nullability:      Nullability(t.Date.Nullability),
-			TypeVariationRef: t.Date.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.Date.GetNullability()),
+			TypeVariationRef: t.Date.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_Time_:
 		return &TimeType{
-			Nullability:      Nullability(t.Time.Nullability),
-			TypeVariationRef: t.Time.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.Time.GetNullability()),
+			TypeVariationRef: t.Time.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_IntervalYear_:
 		return &IntervalYearType{
-			Nullability:      Nullability(t.IntervalYear.Nullability),
-			TypeVariationRef: t.IntervalYear.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.IntervalYear.GetNullability()),
+			TypeVariationRef: t.IntervalYear.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_IntervalDay_:
 		var precision = PrecisionMicroSeconds
-		if t.IntervalDay.Precision != nil {
+		if t.IntervalDay != nil && t.IntervalDay.Precision != nil {
 			var err error
 			precision, err = ProtoToTimePrecision(*t.IntervalDay.Precision)
 			if err != nil {
-				panic(fmt.Sprintf("Invalid precision %v", err))
+				return nil, err
 			}
 		}
 		return &IntervalDayType{
-			Nullability:      Nullability(t.IntervalDay.Nullability),
-			TypeVariationRef: t.IntervalDay.TypeVariationReference,
+			Nullability:      Nullability(t.IntervalDay.GetNullability()),
+			TypeVariationRef: t.IntervalDay.GetTypeVariationReference(),
 			Precision:        precision,
-		}
+		}, nil
 	case *proto.Type_IntervalCompound_:
-		precision, err := ProtoToTimePrecision(t.IntervalCompound.Precision)
+		precision, err := ProtoToTimePrecision(t.IntervalCompound.GetPrecision())
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil, err
 		}
 		return &IntervalCompoundType{
-			nullability:      Nullability(t.IntervalCompound.Nullability),
-			typeVariationRef: t.IntervalCompound.TypeVariationReference,
+			nullability:      Nullability(t.IntervalCompound.GetNullability()),
+			typeVariationRef: t.IntervalCompound.GetTypeVariationReference(),
 			precision:        precision,
-		}
+		}, nil
 	case *proto.Type_TimestampTz:
 		return &TimestampTzType{
-			Nullability:      Nullability(t.TimestampTz.Nullability),
-			TypeVariationRef: t.TimestampTz.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.TimestampTz.GetNullability()),
+			TypeVariationRef: t.TimestampTz.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_Uuid:
 		return &UUIDType{
-			Nullability:      Nullability(t.Uuid.Nullability),
-			TypeVariationRef: t.Uuid.TypeVariationReference,
-		}
+			Nullability:      Nullability(t.Uuid.GetNullability()),
+			TypeVariationRef: t.Uuid.GetTypeVariationReference(),
+		}, nil
 	case *proto.Type_FixedBinary_:
 		return &FixedBinaryType{
-			Nullability:      Nullability(t.FixedBinary.Nullability),
-			TypeVariationRef: t.FixedBinary.TypeVariationReference,
-			Length:           t.FixedBinary.Length,
-		}
+			Nullability:      Nullability(t.FixedBinary.GetNullability()),
+			TypeVariationRef: t.FixedBinary.GetTypeVariationReference(),
+			Length:           t.FixedBinary.GetLength(),
+		}, nil
 	case *proto.Type_FixedChar_:
 		return &FixedCharType{
-			Nullability:      Nullability(t.FixedChar.Nullability),
-			TypeVariationRef: t.FixedChar.TypeVariationReference,
-			Length:           t.FixedChar.Length,
-		}
+			Nullability:      Nullability(t.FixedChar.GetNullability()),
+			TypeVariationRef: t.FixedChar.GetTypeVariationReference(),
+			Length:           t.FixedChar.GetLength(),
+		}, nil
 	case *proto.Type_Varchar:
 		return &VarCharType{
-			Nullability:      Nullability(t.Varchar.Nullability),
-			TypeVariationRef: t.Varchar.TypeVariationReference,
-			Length:           t.Varchar.Length,
-		}
+			Nullability:      Nullability(t.Varchar.GetNullability()),
+			TypeVariationRef: t.Varchar.GetTypeVariationReference(),
+			Length:           t.Varchar.GetLength(),
+		}, nil
 	case *proto.Type_Decimal_:
 		return &DecimalType{
-			Nullability:      Nullability(t.Decimal.Nullability),
-			TypeVariationRef: t.Decimal.TypeVariationReference,
-			Scale:            t.Decimal.Scale,
-			Precision:        t.Decimal.Precision,
-		}
+			Nullability:      Nullability(t.Decimal.GetNullability()),
+			TypeVariationRef: t.Decimal.GetTypeVariationReference(),
+			Scale:            t.Decimal.GetScale(),
+			Precision:        t.Decimal.GetPrecision(),
+		}, nil
 	case *proto.Type_PrecisionTime_:
-		precision, err := ProtoToTimePrecision(t.PrecisionTime.Precision)
+		precision, err := ProtoToTimePrecision(t.PrecisionTime.GetPrecision())
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil, err
 		}
 		return &PrecisionTimeType{
-			Nullability:      Nullability(t.PrecisionTime.Nullability),
-			TypeVariationRef: t.PrecisionTime.TypeVariationReference,
+			Nullability:      Nullability(t.PrecisionTime.GetNullability()),
+			TypeVariationRef: t.PrecisionTime.GetTypeVariationReference(),
 			Precision:        precision,
-		}
+		}, nil
 	case *proto.Type_PrecisionTimestamp_:
-		precision, err := ProtoToTimePrecision(t.PrecisionTimestamp.Precision)
+		precision, err := ProtoToTimePrecision(t.PrecisionTimestamp.GetPrecision())
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil, err
 		}
 		return &PrecisionTimestampType{
-			Nullability:      Nullability(t.PrecisionTimestamp.Nullability),
-			TypeVariationRef: t.PrecisionTimestamp.TypeVariationReference,
+			Nullability:      Nullability(t.PrecisionTimestamp.GetNullability()),
+			TypeVariationRef: t.PrecisionTimestamp.GetTypeVariationReference(),
 			Precision:        precision,
-		}
+		}, nil
 	case *proto.Type_PrecisionTimestampTz:
-		precision, err := ProtoToTimePrecision(t.PrecisionTimestampTz.Precision)
+		precision, err := ProtoToTimePrecision(t.PrecisionTimestampTz.GetPrecision())
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil, err
 		}
 		return &PrecisionTimestampTzType{PrecisionTimestampType{
-			Nullability:      Nullability(t.PrecisionTimestampTz.Nullability),
-			TypeVariationRef: t.PrecisionTimestampTz.TypeVariationReference,
+			Nullability:      Nullability(t.PrecisionTimestampTz.GetNullability()),
+			TypeVariationRef: t.PrecisionTimestampTz.GetTypeVariationReference(),
 			Precision:        precision,
-		}}
+		}}, nil
 	case *proto.Type_Struct_:
-		fields := make([]Type, len(t.Struct.Types))
-		for i, f := range t.Struct.Types {
-			fields[i] = TypeFromProto(f)
+		fields, err := decodeTypes(t.Struct.GetTypes())
+		if err != nil {
+			return nil, err
 		}
 		return &StructType{
-			Nullability:      Nullability(t.Struct.Nullability),
-			TypeVariationRef: t.Struct.TypeVariationReference,
+			Nullability:      Nullability(t.Struct.GetNullability()),
+			TypeVariationRef: t.Struct.GetTypeVariationReference(),
 			Types:            fields,
-		}
+		}, nil
 	case *proto.Type_Func_:
-		params := make([]Type, len(t.Func.ParameterTypes))
-		for i, p := range t.Func.ParameterTypes {
-			params[i] = TypeFromProto(p)
+		params, err := decodeTypes(t.Func.GetParameterTypes())
+		if err != nil {
+			return nil, err
+		}
+		ret, err := DecodeType(t.Func.GetReturnType())
+		if err != nil {
+			return nil, err
 		}
 		return &FuncType{
-			Nullability:    Nullability(t.Func.Nullability),
+			Nullability:    Nullability(t.Func.GetNullability()),
 			ParameterTypes: params,
-			ReturnType:     TypeFromProto(t.Func.ReturnType),
-		}
+			ReturnType:     ret,
+		}, nil
 	case *proto.Type_List_:
-		return &ListType{
-			Nullability:      Nullability(t.List.Nullability),
-			TypeVariationRef: t.List.TypeVariationReference,
-			Type:             TypeFromProto(t.List.Type),
+		elem, err := DecodeType(t.List.GetType())
+		if err != nil {
+			return nil, err
 		}
+		return &ListType{
+			Nullability:      Nullability(t.List.GetNullability()),
+			TypeVariationRef: t.List.GetTypeVariationReference(),
+			Type:             elem,
+		}, nil
 	case *proto.Type_Map_:
-		return &MapType{
-			Nullability:      Nullability(t.Map.Nullability),
-			TypeVariationRef: t.Map.TypeVariationReference,
-			Key:              TypeFromProto(t.Map.Key),
-			Value:            TypeFromProto(t.Map.Value),
+		key, err := DecodeType(t.Map.GetKey())
+		if err != nil {
+			return nil, err
 		}
+		value, err := DecodeType(t.Map.GetValue())
+		if err != nil {
+			return nil, err
+		}
+		return &MapType{
+			Nullability:      Nullability(t.Map.GetNullability()),
+			TypeVariationRef: t.Map.GetTypeVariationReference(),
+			Key:              key,
+			Value:            value,
+		}, nil
 	case *proto.Type_UserDefined_:
-		params := make([]TypeParam, len(t.UserDefined.TypeParameters))
-		for i, p := range t.UserDefined.TypeParameters {
-			params[i] = TypeParamFromProto(p)
+		params := make([]TypeParam, len(t.UserDefined.GetTypeParameters()))
+		for i, p := range t.UserDefined.GetTypeParameters() {
+			var err error
+			if params[i], err = decodeTypeParam(p); err != nil {
+				return nil, err
+			}
 		}
 		return &UserDefinedType{
-			Nullability:      Nullability(t.UserDefined.Nullability),
-			TypeVariationRef: t.UserDefined.TypeVariationReference,
-			TypeReference:    t.UserDefined.TypeReference,
+			Nullability:      Nullability(t.UserDefined.GetNullability()),
+			TypeVariationRef: t.UserDefined.GetTypeVariationReference(),
+			TypeReference:    t.UserDefined.GetTypeReference(),
 			TypeParameters:   params,
+		}, nil
+	}
+	return nil, fmt.Errorf("%w: type without a known kind: %v", substraitgo.ErrInvalidType, t)
+}
+
+func decodeTypes(ts []*proto.Type) ([]Type, error) {
+	out := make([]Type, len(ts))
+	for i, t := range ts {
+		var err error
+		if out[i], err = DecodeType(t); err != nil {
+			return nil, err
 		}
 	}
-	panic("unimplemented type from proto")
+	return out, nil
 }
 
 type (
@@ -658,10 +699,31 @@ func (e *EnumType) WithParameters(params []interface{}) (Type, error) {
 	panic("EnumType.WithParameters not implemented")
 }
 
+// equalTypes compares types of which either may be nil, as the type of an
+// expression is when it cannot be derived, such as for a reference into an
+// outer query.
+func equalTypes(a, b Type) bool {
+	if a == nil || b == nil {
+		return a == nil && b == nil
+	}
+	return a.Equals(b)
+}
+
+// typeString formats a type that may be nil.
+func typeString(t Type) string {
+	if t == nil {
+		return "unknown"
+	}
+	return t.String()
+}
+
 // TypeToProto properly constructs the appropriate protobuf message
-// for the given type.
+// for the given type. A nil type, which is the type of an expression whose
+// type cannot be derived, results in a message without a kind.
 func TypeToProto(t Type) *proto.Type {
 	switch t := t.(type) {
+	case nil:
+		return &proto.Type{}
 	case *BooleanType:
 		return &proto.Type{Kind: &proto.Type_Bool{
 			Bool: &proto.Type_Boolean{
@@ -1161,7 +1223,7 @@ func (t *StructType) Equals(rhs Type) bool {
 		}
 
 		for i := range t.Types {
-			if !t.Types[i].Equals(b.Types[i]) {
+			if !equalTypes(t.Types[i], b.Types[i]) {
 				return false
 			}
 		}
@@ -1199,7 +1261,7 @@ func (t *StructType) String() string {
 		if i != 0 {
 			b.WriteString(", ")
 		}
-		b.WriteString(f.String())
+		b.WriteString(typeString(f))
 	}
 	b.WriteByte('>')
 	return b.String()
@@ -1211,7 +1273,7 @@ func (t *StructType) ParameterString() string {
 		if i != 0 {
 			sb.WriteString(", ")
 		}
-		sb.WriteString(typ.String())
+		sb.WriteString(typeString(typ))
 	}
 	return sb.String()
 }
@@ -1291,12 +1353,12 @@ func (f *FuncType) Equals(rhs Type) bool {
 			return false
 		case len(f.ParameterTypes) != len(b.ParameterTypes):
 			return false
-		case !f.ReturnType.Equals(b.ReturnType):
+		case !equalTypes(f.ReturnType, b.ReturnType):
 			return false
 		}
 
 		for i := range f.ParameterTypes {
-			if !f.ParameterTypes[i].Equals(b.ParameterTypes[i]) {
+			if !equalTypes(f.ParameterTypes[i], b.ParameterTypes[i]) {
 				return false
 			}
 		}
@@ -1336,10 +1398,10 @@ func (f *FuncType) String() string {
 		if i != 0 {
 			b.WriteString(", ")
 		}
-		b.WriteString(p.String())
+		b.WriteString(typeString(p))
 	}
 	b.WriteString(" -> ")
-	b.WriteString(f.ReturnType.String())
+	b.WriteString(typeString(f.ReturnType))
 	b.WriteByte('>')
 	return b.String()
 }
@@ -1375,7 +1437,7 @@ func (t *ListType) Equals(rhs Type) bool {
 			return false
 		}
 
-		return t.Type.Equals(b.Type)
+		return equalTypes(t.Type, b.Type)
 	}
 	return false
 }
@@ -1396,11 +1458,11 @@ func (t *ListType) ToProtoFuncArg() *proto.FunctionArgument {
 func (*ListType) ShortString() string { return "list" }
 
 func (t *ListType) String() string {
-	return "list" + strNullable(t) + "<" + t.Type.String() + ">"
+	return "list" + strNullable(t) + "<" + typeString(t.Type) + ">"
 }
 
 func (s *ListType) ParameterString() string {
-	return s.Type.String()
+	return typeString(s.Type)
 }
 
 func (*ListType) BaseString() string {
@@ -1437,7 +1499,7 @@ func (t *MapType) Equals(rhs Type) bool {
 			return false
 		}
 
-		return t.Key.Equals(b.Key) && t.Value.Equals(b.Value)
+		return equalTypes(t.Key, b.Key) && equalTypes(t.Value, b.Value)
 	}
 	return false
 }
@@ -1459,11 +1521,11 @@ func (t *MapType) ToProtoFuncArg() *proto.FunctionArgument {
 func (t *MapType) ShortString() string { return "map" }
 
 func (t *MapType) String() string {
-	return "map" + strNullable(t) + "<" + t.Key.String() + ", " + t.Value.String() + ">"
+	return "map" + strNullable(t) + "<" + typeString(t.Key) + ", " + typeString(t.Value) + ">"
 }
 
 func (t *MapType) ParameterString() string {
-	return fmt.Sprintf("%s, %s", t.Key.String(), t.Value.String())
+	return typeString(t.Key) + ", " + typeString(t.Value)
 }
 
 func (*MapType) BaseString() string {
@@ -1583,23 +1645,36 @@ func (p StringParameter) Evaluate(symbolTable map[string]any) (any, error) {
 }
 
 // TypeParamFromProto converts a protobuf Type_Parameter message to
-// a TypeParam object for processing.
+// a TypeParam object for processing. It returns nil for a parameter
+// that is malformed.
 func TypeParamFromProto(p *proto.Type_Parameter) TypeParam {
-	switch p := p.Parameter.(type) {
+	param, err := decodeTypeParam(p)
+	if err != nil {
+		return nil
+	}
+	return param
+}
+
+func decodeTypeParam(p *proto.Type_Parameter) (TypeParam, error) {
+	switch p := p.GetParameter().(type) {
 	case *proto.Type_Parameter_Null:
-		return NullParameter{}
+		return NullParameter{}, nil
 	case *proto.Type_Parameter_Boolean:
-		return BooleanParameter(p.Boolean)
+		return BooleanParameter(p.Boolean), nil
 	case *proto.Type_Parameter_DataType:
-		return &DataTypeParameter{TypeFromProto(p.DataType)}
+		typ, err := DecodeType(p.DataType)
+		if err != nil {
+			return nil, err
+		}
+		return &DataTypeParameter{typ}, nil
 	case *proto.Type_Parameter_Integer:
-		return IntegerParameter(p.Integer)
+		return IntegerParameter(p.Integer), nil
 	case *proto.Type_Parameter_Enum:
-		return EnumParameter(p.Enum)
+		return EnumParameter(p.Enum), nil
 	case *proto.Type_Parameter_String_:
-		return StringParameter(p.String_)
+		return StringParameter(p.String_), nil
 	}
-	return nil
+	return nil, fmt.Errorf("%w: type parameter without a value", substraitgo.ErrInvalidType)
 }
 
 type UserDefinedType struct {
@@ -1695,24 +1770,36 @@ type NamedStruct struct {
 	Struct StructType
 }
 
+// NewNamedStructFromProto returns the named struct of a protobuf message. It
+// panics if a type in it is malformed, which DecodeNamedStruct reports as an error.
 func NewNamedStructFromProto(n *proto.NamedStruct) NamedStruct {
+	out, err := DecodeNamedStruct(n)
+	if err != nil {
+		panic(err)
+	}
+	return out
+}
+
+// DecodeNamedStruct returns the named struct of a protobuf message, or an
+// error if a type in it is malformed.
+func DecodeNamedStruct(n *proto.NamedStruct) (NamedStruct, error) {
 	if n == nil {
-		return NamedStruct{}
+		return NamedStruct{}, nil
 	}
 
-	fields := make([]Type, len(n.Struct.Types))
-	for i, f := range n.Struct.Types {
-		fields[i] = TypeFromProto(f)
+	fields, err := decodeTypes(n.GetStruct().GetTypes())
+	if err != nil {
+		return NamedStruct{}, err
 	}
 
 	return NamedStruct{
 		Names: n.Names,
 		Struct: StructType{
-			Nullability:      Nullability(n.Struct.Nullability),
-			TypeVariationRef: n.Struct.TypeVariationReference,
+			Nullability:      Nullability(n.GetStruct().GetNullability()),
+			TypeVariationRef: n.GetStruct().GetTypeVariationReference(),
 			Types:            fields,
 		},
-	}
+	}, nil
 }
 
 func (n NamedStruct) ToProto() *proto.NamedStruct {
@@ -1727,6 +1814,12 @@ func (n NamedStruct) String() string {
 
 	// names are in depth-first order
 	nameIdx := 0
+	writeName := func() {
+		if nameIdx < len(n.Names) {
+			b.WriteString(n.Names[nameIdx])
+		}
+		nameIdx++
+	}
 
 	var writeType func(t Type)
 
@@ -1738,8 +1831,7 @@ func (n NamedStruct) String() string {
 				if i != 0 {
 					b.WriteString(", ")
 				}
-				b.WriteString(n.Names[nameIdx])
-				nameIdx++
+				writeName()
 				b.WriteString(": ")
 				writeType(c)
 			}
@@ -1758,7 +1850,7 @@ func (n NamedStruct) String() string {
 			b.WriteString(">")
 			b.WriteString(strNullable(t))
 		default:
-			b.WriteString(t.String())
+			b.WriteString(typeString(t))
 		}
 	}
 
@@ -1767,9 +1859,8 @@ func (n NamedStruct) String() string {
 		if i != 0 {
 			b.WriteString(", ")
 		}
-		b.WriteString(n.Names[nameIdx])
+		writeName()
 		b.WriteString(": ")
-		nameIdx++
 
 		writeType(t)
 	}
-- 
2.43.0


From 24ef1caf5a140af2777465cf24cb8663fef9be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:10 +0000
Subject: [PATCH 107/118] fix: derive the types of nested lists and maps in
 linear time

Each level asked twice for the type of its elements, which took time
exponential in the depth.
---
 expr/expression.go | 18 ++++++++++--------
 expr/literals.go   |  4 ++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index ab42125..ccfadae 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1339,15 +1339,16 @@ func (ex *MapExpr) GetType() types.Type {
 	// there *should* be at least one element in the keyvalues,
 	// otherwise an EmptyMap literal should be used in order
 	// to ensure type information is not lost
-	if ex.KeyValues[0].Key.GetType() == nil || ex.KeyValues[0].Value.GetType() == nil {
+	key, value := ex.KeyValues[0].Key.GetType(), ex.KeyValues[0].Value.GetType()
+	if key == nil || value == nil {
 		return nil
 	}
 
 	return &types.MapType{
 		Nullability:      getNullability(ex.Nullable),
 		TypeVariationRef: ex.TypeVariationRef,
-		Key:              ex.KeyValues[0].Key.GetType(),
-		Value:            ex.KeyValues[0].Value.GetType(),
+		Key:              key,
+		Value:            value,
 	}
 }
 
@@ -1587,17 +1588,18 @@ func (ex *ListExpr) IsScalar() bool {
 }
 
 func (ex *ListExpr) GetType() types.Type {
-	if ex.Values[0].GetType() == nil {
+	// to specify an empty list, use an emptylist literal
+	// otherwise you will be missing type information.
+	// thus we should assume there's at least one value
+	elem := ex.Values[0].GetType()
+	if elem == nil {
 		return nil
 	}
 
 	return &types.ListType{
 		Nullability:      getNullability(ex.Nullable),
 		TypeVariationRef: ex.TypeVariationRef,
-		// to specify an empty list, use an emptylist literal
-		// otherwise you will be missing type information.
-		// thus we should assume there's at least one value
-		Type: ex.Values[0].GetType(),
+		Type:             elem,
 	}
 }
 
diff --git a/expr/literals.go b/expr/literals.go
index 9fe0939..83b17c3 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -57,8 +57,8 @@ type (
 
 // Deprecated: use VirtualTableExprFromLiteralProto
 func StructLiteralFromProto(s *proto.Expression_Literal_Struct) StructLiteralValue {
-	fields := make(StructLiteralValue, len(s.Fields))
-	for i, f := range s.Fields {
+	fields := make(StructLiteralValue, len(s.GetFields()))
+	for i, f := range s.GetFields() {
 		fields[i] = LiteralFromProto(f)
 	}
 	return fields
-- 
2.43.0


From 9ba71f5882b4393cce15ee1c87d08f414bb12cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 108/118] fix: link copies of reference segments, not the
 segments themselves

---
 expr/field_reference.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index aa9f83f..0a9a0e8 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -81,26 +81,25 @@ func RefSegmentFromProto(p *proto.Expression_ReferenceSegment) ReferenceSegment
 	return nil
 }
 
+// FlattenRefSegments returns a path in which each of the segments is the
+// child of the one before. The segments themselves are left as they are.
 func FlattenRefSegments(refs ...ReferenceSegment) ReferenceSegment {
 	if len(refs) == 0 {
 		return nil
 	}
 
-	if len(refs) == 1 {
-		return refs[0]
-	}
-
-	out, cur := refs[0], refs[0]
-	for _, r := range refs[1:] {
-		switch parent := cur.(type) {
+	out := refs[len(refs)-1]
+	for i := len(refs) - 2; i >= 0; i-- {
+		switch parent := refs[i].(type) {
 		case *MapKeyRef:
-			parent.Child = r
+			out = &MapKeyRef{MapKey: parent.MapKey, Child: out}
 		case *StructFieldRef:
-			parent.Child = r
+			out = &StructFieldRef{Field: parent.Field, Child: out}
 		case *ListElementRef:
-			parent.Child = r
+			out = &ListElementRef{Offset: parent.Offset, Child: out}
+		default:
+			out = refs[i]
 		}
-		cur = r
 	}
 
 	return out
-- 
2.43.0


From 5dfb8d6a9cde8bc4a264e6d0fccadb5bd8710d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:04 +0000
Subject: [PATCH 109/118] fix: make a dialect's type registry once, also for
 concurrent callers

---
 functions/dialect.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index e26ccb1..40c4dc4 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -8,6 +8,7 @@ import (
 	"maps"
 	"slices"
 	"strings"
+	"sync"
 
 	"github.com/creasty/defaults"
 	"github.com/goccy/go-yaml"
@@ -41,6 +42,8 @@ type dialectImpl struct {
 	localAggregateFunctions map[extensions.FunctionID]*dialectFunctionInfo
 	localWindowFunctions    map[extensions.FunctionID]*dialectFunctionInfo
 
+	// guards localTypeRegistry, which is made when it is first asked for
+	mu                sync.Mutex
 	localTypeRegistry LocalTypeRegistry
 }
 
@@ -166,6 +169,8 @@ func addToSliceMapWithLocalKey[V localFunctionVariant](m map[FunctionName][]V, v
 }
 
 func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, error) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	if d.localTypeRegistry != nil {
 		return d.localTypeRegistry, nil
 	}
@@ -186,9 +191,6 @@ func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, err
 }
 
 func (d *dialectImpl) GetLocalTypeRegistry() (LocalTypeRegistry, error) {
-	if d.localTypeRegistry != nil {
-		return d.localTypeRegistry, nil
-	}
 	return d.LocalizeTypeRegistry(NewTypeRegistry())
 }
 
-- 
2.43.0


From 3c81fa1a51ef06247a0e4922b661b7608a327928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:36 +0000
Subject: [PATCH 110/118] fix: list functions in the order of their URNs and
 names

---
 extensions/extension_mgr.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index fd9e264..ad20816 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -3,12 +3,15 @@
 package extensions
 
 import (
+	"cmp"
 	"embed"
 	"fmt"
 	"io"
 	"io/fs"
+	"maps"
 	"path"
 	"regexp"
+	"slices"
 	"sort"
 	"sync"
 
@@ -349,14 +352,20 @@ func (c *Collection) GetAllWindowFunctions() []*WindowFunctionVariant {
 	return getValues(c.windowMap)
 }
 
-func getValues[M ~map[K]V, K comparable, V any](m M) []V {
+// getValues returns the functions in the order of their URNs and names, so that
+// listings and everything derived from them don't depend on the map order.
+func getValues[M ~map[FunctionID]V, V any](m M) []V {
 	result := make([]V, 0, len(m))
-	for _, v := range m {
-		result = append(result, v)
+	for _, id := range slices.SortedFunc(maps.Keys(m), compareFunctionIDs) {
+		result = append(result, m[id])
 	}
 	return result
 }
 
+func compareFunctionIDs(a, b FunctionID) int {
+	return cmp.Or(cmp.Compare(a.URN, b.URN), cmp.Compare(a.Name, b.Name))
+}
+
 type Set interface {
 	DecodeTypeVariation(anchor uint32) (TypeVariationID, bool)
 	DecodeFunc(anchor uint32) (FunctionID, bool)
-- 
2.43.0


From 2267ac8e2dff474345703f984d905a2995da758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:40 +0000
Subject: [PATCH 111/118] fix: localize functions in the order of their URNs
 and names

---
 functions/dialect.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 40c4dc4..0ce2213 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -3,6 +3,7 @@
 package functions
 
 import (
+	"cmp"
 	"fmt"
 	"io"
 	"maps"
@@ -116,7 +117,9 @@ func makeLocalFunctionVariantMapAndSlice[T withID, V localFunctionVariant](
 	processedFunctions := make(map[extensions.FunctionID]bool)
 	variantsMap := make(map[FunctionName][]V)
 	variantsSlice := make([]V, 0)
-	for _, dfi := range dialectFunctionInfos {
+	// in the order of their IDs, so that the result doesn't depend on the map order
+	for _, id := range slices.SortedFunc(maps.Keys(dialectFunctionInfos), compareFunctionIDs) {
+		dfi := dialectFunctionInfos[id]
 		if _, nameAlreadyProcessed := variantsMap[SubstraitFunctionName(dfi.Name)]; nameAlreadyProcessed {
 			if _, ok := processedFunctions[dfi.ID]; !ok {
 				var invocationType V
@@ -150,6 +153,10 @@ func makeLocalFunctionVariantMapAndSlice[T withID, V localFunctionVariant](
 	}, nil
 }
 
+func compareFunctionIDs(a, b extensions.FunctionID) int {
+	return cmp.Or(cmp.Compare(a.URN, b.URN), cmp.Compare(a.Name, b.Name))
+}
+
 func addToSliceMap[K FunctionName, V extensions.FunctionVariant](m map[FunctionName][]V, key K, value []V) {
 	if _, ok := m[key]; !ok {
 		m[key] = make([]V, 0)
-- 
2.43.0


From cfe4c876b8836db6e020be9df5509f11c6be71bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:44 +0000
Subject: [PATCH 112/118] fix: print the relation of a subquery, not where it
 is in memory

---
 plan/subquery.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/plan/subquery.go b/plan/subquery.go
index 8c71d6a..3b17540 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -102,8 +102,17 @@ func NewScalarSubquery(input Rel) *ScalarSubquery {
 
 func (s *ScalarSubquery) GetSubqueryType() string { return "scalar" }
 
+// relString is the text of a relation. It is made from the message the relation
+// is encoded as, which has the same text wherever the relation is in memory.
+func relString(rel Rel) string {
+	if rel == nil {
+		return "<nil>"
+	}
+	return rel.ToProto().String()
+}
+
 func (s *ScalarSubquery) String() string {
-	return fmt.Sprintf("SCALAR_SUBQUERY(%s)", s.Input)
+	return fmt.Sprintf("SCALAR_SUBQUERY(%s)", relString(s.Input))
 }
 
 func (s *ScalarSubquery) IsScalar() bool { return true }
@@ -181,7 +190,7 @@ func (s *InPredicateSubquery) String() string {
 		b.WriteByte(')')
 	}
 	b.WriteString(" IN (")
-	b.WriteString(fmt.Sprintf("%s", s.Haystack))
+	b.WriteString(relString(s.Haystack))
 	b.WriteByte(')')
 	return b.String()
 }
@@ -304,7 +313,7 @@ func (s *SetPredicateSubquery) String() string {
 	default:
 		opStr = "UNKNOWN"
 	}
-	return fmt.Sprintf("%s(%s)", opStr, s.Tuples)
+	return fmt.Sprintf("%s(%s)", opStr, relString(s.Tuples))
 }
 
 func (s *SetPredicateSubquery) IsScalar() bool { return true }
@@ -426,7 +435,7 @@ func (s *SetComparisonSubquery) String() string {
 		comparisonStr = "?"
 	}
 
-	return fmt.Sprintf("%s %s %s(%s)", s.Left, comparisonStr, reductionStr, s.Right)
+	return fmt.Sprintf("%s %s %s(%s)", s.Left, comparisonStr, reductionStr, relString(s.Right))
 }
 
 func (s *SetComparisonSubquery) IsScalar() bool {
-- 
2.43.0


From fb0ca06915831ff3b0cfd74a2494ae41a96c3967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:24 +0000
Subject: [PATCH 113/118] fix: functions that take an interval_year accept
 interval_year literals

---
 types/types.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/types/types.go b/types/types.go
index 4df604a..6662177 100644
--- a/types/types.go
+++ b/types/types.go
@@ -938,6 +938,15 @@ type PrimitiveType[T primitiveTypeIFace] struct {
 	TypeVariationRef uint32
 }
 
+// primitiveOf returns the primitive representation of an interval_year, which
+// has another one as the type of a literal, and any other type as it is.
+func primitiveOf(t Type) Type {
+	if o, ok := t.(IntervalYearToMonthType); ok {
+		return &IntervalYearType{Nullability: o.nullability, TypeVariationRef: o.typeVariationRef}
+	}
+	return t
+}
+
 func (*PrimitiveType[T]) isRootRef() {}
 func (s *PrimitiveType[T]) WithNullability(n Nullability) Type {
 	out := *s
@@ -953,10 +962,7 @@ func (s *PrimitiveType[T]) GetType() Type                     { return s }
 func (s *PrimitiveType[T]) GetNullability() Nullability       { return s.Nullability }
 func (s *PrimitiveType[T]) GetTypeVariationReference() uint32 { return s.TypeVariationRef }
 func (s *PrimitiveType[T]) Equals(rhs Type) bool {
-	if o, ok := rhs.(IntervalYearToMonthType); ok {
-		rhs = &IntervalYearType{Nullability: o.nullability, TypeVariationRef: o.typeVariationRef}
-	}
-	if o, ok := rhs.(*PrimitiveType[T]); ok {
+	if o, ok := primitiveOf(rhs).(*PrimitiveType[T]); ok {
 		return *o == *s
 	}
 
@@ -1008,10 +1014,8 @@ func (s *PrimitiveType[T]) MatchWithNullability(ot Type) bool {
 }
 
 func (s *PrimitiveType[T]) MatchWithoutNullability(ot Type) bool {
-	if _, ok := ot.(*PrimitiveType[T]); ok {
-		return true
-	}
-	return false
+	_, ok := primitiveOf(ot).(*PrimitiveType[T])
+	return ok
 }
 
 func (s *PrimitiveType[T]) ReturnType([]FuncDefArgType, []Type) (Type, error) {
-- 
2.43.0


From 4e8b3ffd8b8ae8d9809b8e8f39b485c2452ce0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:10 +0000
Subject: [PATCH 114/118] fix: expression builders reject missing parts

---
 expr/builder.go | 78 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 20 deletions(-)

diff --git a/expr/builder.go b/expr/builder.go
index 14b515e..df74182 100644
--- a/expr/builder.go
+++ b/expr/builder.go
@@ -271,8 +271,13 @@ type exprWrapper struct {
 	err        error
 }
 
-func (e exprWrapper) BuildFuncArg() (types.FuncArg, error) { return e.expression, e.err }
-func (e exprWrapper) BuildExpr() (Expression, error)       { return e.expression, e.err }
+func (e exprWrapper) BuildFuncArg() (types.FuncArg, error) { return e.BuildExpr() }
+func (e exprWrapper) BuildExpr() (Expression, error) {
+	if e.err == nil && e.expression == nil {
+		return nil, fmt.Errorf("%w: cannot wrap a nil expression", substraitgo.ErrInvalidExpr)
+	}
+	return e.expression, e.err
+}
 
 type enumWrapper string
 
@@ -282,6 +287,32 @@ type FuncArgBuilder interface {
 	BuildFuncArg() (types.FuncArg, error)
 }
 
+// buildFuncArgs builds the arguments of a function.
+func buildFuncArgs(builders []FuncArgBuilder) ([]types.FuncArg, error) {
+	args := make([]types.FuncArg, len(builders))
+	for i, a := range builders {
+		if a == nil {
+			return nil, fmt.Errorf("%w: function argument %d is nil", substraitgo.ErrInvalidExpr, i)
+		}
+		arg, err := a.BuildFuncArg()
+		if err != nil {
+			return nil, err
+		}
+		args[i] = arg
+	}
+	return args, nil
+}
+
+// validateSorts checks that every sort field of a function has an expression.
+func validateSorts(sorts []SortField) error {
+	for i, s := range sorts {
+		if s.Expr == nil {
+			return fmt.Errorf("%w: sort field %d has no expression", substraitgo.ErrInvalidExpr, i)
+		}
+	}
+	return nil
+}
+
 type castBuilder struct {
 	toType          types.Type
 	input           Builder
@@ -291,6 +322,13 @@ type castBuilder struct {
 func (cb *castBuilder) BuildExpr() (Expression, error)       { return cb.Build() }
 func (cb *castBuilder) BuildFuncArg() (types.FuncArg, error) { return cb.Build() }
 func (cb *castBuilder) Build() (*Cast, error) {
+	if cb.input == nil {
+		return nil, fmt.Errorf("%w: cast must have an input", substraitgo.ErrInvalidExpr)
+	}
+	if cb.toType == nil {
+		return nil, fmt.Errorf("%w: cast must have an output type", substraitgo.ErrInvalidExpr)
+	}
+
 	in, err := cb.input.BuildExpr()
 	if err != nil {
 		return nil, err
@@ -337,12 +375,9 @@ type scalarFuncBuilder struct {
 }
 
 func (sb *scalarFuncBuilder) Build() (*ScalarFunction, error) {
-	var err error
-	args := make([]types.FuncArg, len(sb.args))
-	for i, a := range sb.args {
-		if args[i], err = a.BuildFuncArg(); err != nil {
-			return nil, err
-		}
+	args, err := buildFuncArgs(sb.args)
+	if err != nil {
+		return nil, err
 	}
 
 	return NewScalarFunc(sb.b.Reg, sb.id, sb.opts, args...)
@@ -380,16 +415,19 @@ type windowFuncBuilder struct {
 }
 
 func (wb *windowFuncBuilder) Build() (*WindowFunction, error) {
-	var err error
-	args := make([]types.FuncArg, len(wb.args))
-	for i, a := range wb.args {
-		if args[i], err = a.BuildFuncArg(); err != nil {
-			return nil, err
-		}
+	args, err := buildFuncArgs(wb.args)
+	if err != nil {
+		return nil, err
+	}
+	if err := validateSorts(wb.sortList); err != nil {
+		return nil, err
 	}
 
 	parts := make([]Expression, len(wb.partitions))
 	for i, p := range wb.partitions {
+		if p == nil {
+			return nil, fmt.Errorf("%w: partition %d is nil", substraitgo.ErrInvalidExpr, i)
+		}
 		if parts[i], err = p.BuildExpr(); err != nil {
 			return nil, err
 		}
@@ -480,12 +518,12 @@ type aggregateFuncBuilder struct {
 }
 
 func (ab *aggregateFuncBuilder) Build() (*AggregateFunction, error) {
-	var err error
-	args := make([]types.FuncArg, len(ab.args))
-	for i, a := range ab.args {
-		if args[i], err = a.BuildFuncArg(); err != nil {
-			return nil, err
-		}
+	args, err := buildFuncArgs(ab.args)
+	if err != nil {
+		return nil, err
+	}
+	if err := validateSorts(ab.sortList); err != nil {
+		return nil, err
 	}
 
 	return NewAggregateFunc(ab.b.Reg, ab.id, ab.opts, ab.invocation, ab.phase, ab.sortList, args...)
-- 
2.43.0


From 389c3e5f5ddffd3f69ee05e59d86a8a9377c4afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:19 +0000
Subject: [PATCH 115/118] fix: expression constructors return errors for nil
 and untyped operands

---
 expr/expression.go | 26 ++++++++++++++++++++++----
 expr/functions.go  |  9 +++++++--
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index ccfadae..1ab9fba 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -488,6 +488,9 @@ func NewIfThen(firstIf IfThenPair, elseClause Expression, elsifs ...IfThenPair)
 	}
 
 	outputType := elseClause.GetType()
+	if outputType == nil {
+		return nil, fmt.Errorf("%w: the type of the else expression of an IfThen must be known", substraitgo.ErrInvalidExpr)
+	}
 	if firstIf.If == nil {
 		return nil, fmt.Errorf("%w: cannot have nil If expression", substraitgo.ErrInvalidExpr)
 	}
@@ -758,6 +761,16 @@ type SwitchExpr struct {
 	elseClause Expression
 }
 
+// withoutNullability returns the type of an expression with its nullability
+// unspecified, or nil if the type isn't known.
+func withoutNullability(ex Expression) types.Type {
+	t := ex.GetType()
+	if t == nil {
+		return nil
+	}
+	return t.WithNullability(types.NullabilityUnspecified)
+}
+
 // NewSwitch constructs a switch statement. Will return an error
 // in the following cases:
 //   - match is nil
@@ -776,7 +789,10 @@ func NewSwitch(match Expression, elseClause Expression, switchCases ...struct {
 	}
 
 	// we don't care about the nullability for this comparison
-	matchType := match.GetType().WithNullability(types.NullabilityUnspecified)
+	matchType := withoutNullability(match)
+	if matchType == nil {
+		return nil, fmt.Errorf("%w: the type of the match expression of a Switch must be known", substraitgo.ErrInvalidExpr)
+	}
 	if len(switchCases) == 0 {
 		return nil, fmt.Errorf("%w: must have at least one switch case", substraitgo.ErrInvalidExpr)
 	}
@@ -787,9 +803,9 @@ func NewSwitch(match Expression, elseClause Expression, switchCases ...struct {
 	// nullability for the purposes of validity comparison here.
 	var outputType types.Type
 	if elseClause != nil {
-		outputType = elseClause.GetType().WithNullability(types.NullabilityUnspecified)
+		outputType = withoutNullability(elseClause)
 	} else if switchCases[0].Then != nil {
-		outputType = switchCases[0].Then.GetType().WithNullability(types.NullabilityUnspecified)
+		outputType = withoutNullability(switchCases[0].Then)
 	}
 
 	for _, c := range switchCases {
@@ -801,7 +817,9 @@ func NewSwitch(match Expression, elseClause Expression, switchCases ...struct {
 		case !matchType.Equals(c.If.GetType().WithNullability(types.NullabilityUnspecified)):
 			return nil, fmt.Errorf("%w: switch case If literal doesn't match type of match expression. expected %s, got %s",
 				substraitgo.ErrInvalidExpr, matchType, c.If.GetType())
-		case !outputType.Equals(c.Then.GetType().WithNullability(types.NullabilityUnspecified)):
+		case outputType == nil:
+			return nil, fmt.Errorf("%w: the types of the result expressions of a Switch must be known", substraitgo.ErrInvalidExpr)
+		case !outputType.Equals(withoutNullability(c.Then)):
 			return nil, fmt.Errorf("%w: switch case result type doesn't match expected output type. expected %s, got %s",
 				substraitgo.ErrInvalidExpr, outputType, c.Then.GetType())
 		}
diff --git a/expr/functions.go b/expr/functions.go
index 1f4d102..9a7a7bc 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -214,8 +214,10 @@ func resolveVariant[T variant](
 	args []types.FuncArg,
 ) (T, types.Type, error) {
 	argTypes := make([]types.Type, 0, len(args))
-	for _, arg := range args {
+	for i, arg := range args {
 		switch a := arg.(type) {
+		case nil:
+			return nil, nil, fmt.Errorf("%w: function argument %d is nil", substraitgo.ErrInvalidExpr, i)
 		case types.Enum:
 			argTypes = append(argTypes, types.CommonEnumType)
 		case Expression:
@@ -228,7 +230,10 @@ func resolveVariant[T variant](
 		if strings.IndexByte(id.Name, ':') == -1 {
 			sigs := make([]string, len(argTypes))
 			for i, t := range argTypes {
-				if t == types.CommonEnumType {
+				if t == nil {
+					return nil, nil, fmt.Errorf("%w: could not find matching function for id: %s, the type of argument %d is not known",
+						substraitgo.ErrNotFound, id, i)
+				} else if t == types.CommonEnumType {
 					// enum value
 					sigs[i] = extensions.EnumTypeString
 				} else if ud, ok := t.(*types.UserDefinedType); ok {
-- 
2.43.0


From de38f4a2767b2418ee22856d06d1b9e1033dac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:54 +0000
Subject: [PATCH 116/118] fix: extended expressions reject references without
 an expression

---
 expr/expression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/expression.go b/expr/expression.go
index 1ab9fba..da5ea20 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1768,6 +1768,8 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 				return nil, err
 			}
 			refs[i].SetMeasure(agg)
+		default:
+			return nil, fmt.Errorf("%w: expression reference %d without an expression", substraitgo.ErrInvalidExpr, i)
 		}
 	}
 
-- 
2.43.0


From 7682a8fa9d7c1abdadbce95fa9a81d946bfd13bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:30 +0000
Subject: [PATCH 117/118] fix: variants resolved from a decoded file have the
 default decomposability and window type

---
 extensions/simple_extension.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 59bd411..6690944 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -409,15 +409,10 @@ func (s *AggregateFunction) GetVariants(urn string) []*AggregateFunctionVariant
 }
 
 func (s *AggregateFunction) ResolveURN(urn string) []FunctionVariant {
-	out := make([]FunctionVariant, len(s.Impls))
-	for i, impl := range s.Impls {
-		out[i] = &AggregateFunctionVariant{
-			name:        s.Name,
-			description: s.Description,
-			urn:         urn,
-			impl:        impl,
-			metadata:    s.Metadata,
-		}
+	variants := s.GetVariants(urn)
+	out := make([]FunctionVariant, len(variants))
+	for i, v := range variants {
+		out[i] = v
 	}
 	return out
 }
@@ -494,15 +489,10 @@ func (s *WindowFunction) GetVariants(urn string) []*WindowFunctionVariant {
 }
 
 func (s *WindowFunction) ResolveURN(urn string) []FunctionVariant {
-	out := make([]FunctionVariant, len(s.Impls))
-	for i, impl := range s.Impls {
-		out[i] = &WindowFunctionVariant{
-			name:        s.Name,
-			description: s.Description,
-			urn:         urn,
-			impl:        impl,
-			metadata:    s.Metadata,
-		}
+	variants := s.GetVariants(urn)
+	out := make([]FunctionVariant, len(variants))
+	for i, v := range variants {
+		out[i] = v
 	}
 	return out
 }
-- 
2.43.0


From 9a813fb8c0b84eafa065d09ab61dff84b11349e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:11 +0000
Subject: [PATCH 118/118] fix: HasSyncParams does not take equal numbers for a
 shared parameter name

---
 extensions/variants.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extensions/variants.go b/extensions/variants.go
index be99cba..bf39831 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -742,6 +742,10 @@ func HasSyncParams(params []types.FuncDefArgType) bool {
 // if it is a leaf type, its param name is returned
 // if it is parameterized type, leaf type is found recursively
 func getLeafParameterizedParams(abstractTypes interface{}) []string {
+	if _, ok := abstractTypes.(*integer_parameters.ConcreteIntParam); ok {
+		// a number, e.g. the 0 in decimal<P, 0>, is not a param name
+		return nil
+	}
 	if leaf, ok := abstractTypes.(integer_parameters.IntegerParameter); ok {
 		return []string{leaf.String()}
 	}
-- 
2.43.0


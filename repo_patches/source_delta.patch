From c9229c423674b65b1d505be86b3c2cd84796ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 01/46] fix: pack and unpack arrays of structures element by
 element and treat short reads as errors

---
 pack.go | 94 ++++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 87 insertions(+), 7 deletions(-)

diff --git a/pack.go b/pack.go
index 01cb4f4..9290d97 100644
--- a/pack.go
+++ b/pack.go
@@ -43,6 +43,73 @@ func (p cipPack) Align(t reflect.Type) int {
 	return a
 }
 
+// isStructArray reports whether t is an array (of arrays) of structures.
+func (p cipPack) isStructArray(t reflect.Type) bool {
+	if t.Kind() != reflect.Array {
+		return false
+	}
+	for t.Kind() == reflect.Array {
+		t = t.Elem()
+	}
+	return t.Kind() == reflect.Struct
+}
+
+// packArray packs the elements of an array of structures one by one, each of them filling a multiple of its alignment.
+func (p cipPack) packArray(w io.Writer, arr reflect.Value) (int, error) {
+	pos := 0
+	nested := p.isStructArray(arr.Type().Elem())
+	align := p.Align(arr.Type().Elem())
+	for i := 0; i < arr.Len(); i++ {
+		var s int
+		var err error
+		if nested {
+			s, err = p.packArray(w, arr.Index(i))
+		} else {
+			s, err = Pack(w, arr.Index(i).Interface())
+		}
+		pos += s
+		if err != nil {
+			return pos, fmt.Errorf("problem packing array element %d: %w", i, err)
+		}
+		if rem := s % align; rem != 0 {
+			s, err = w.Write(make([]byte, align-rem))
+			pos += s
+			if err != nil {
+				return pos, fmt.Errorf("problem writing array element padding: %w", err)
+			}
+		}
+	}
+	return pos, nil
+}
+
+// unpackArray is the reverse of packArray.
+func (p cipPack) unpackArray(r io.Reader, arr reflect.Value) (int, error) {
+	n := 0
+	nested := p.isStructArray(arr.Type().Elem())
+	align := p.Align(arr.Type().Elem())
+	for i := 0; i < arr.Len(); i++ {
+		var s int
+		var err error
+		if nested {
+			s, err = p.unpackArray(r, arr.Index(i))
+		} else {
+			s, err = Unpack(r, arr.Index(i).Addr().Interface())
+		}
+		n += s
+		if err != nil {
+			return n, fmt.Errorf("problem unpacking array element %d: %w", i, err)
+		}
+		if rem := s % align; rem != 0 {
+			s, err = io.ReadFull(r, make([]byte, align-rem))
+			n += s
+			if err != nil {
+				return n, fmt.Errorf("problem reading array element padding: %w", err)
+			}
+		}
+	}
+	return n, nil
+}
+
 func (p cipPack) Order() binary.ByteOrder {
 	return binary.LittleEndian
 }
@@ -102,7 +169,7 @@ func Pack(w io.Writer, data any) (int, error) {
 	case Serializable:
 		n, err := w.Write(d.Bytes())
 		if err != nil {
-			return 0, nil
+			return n, err
 		}
 		return n, nil
 	}
@@ -208,7 +275,13 @@ func Pack(w io.Writer, data any) (int, error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if p.isStructArray(field.Type) {
+			var err error
+			s, err = p.packArray(w, refVal.Field(i))
+			if err != nil {
+				return pos, fmt.Errorf("problem packing array of structures: %w", err)
+			}
+		} else if k != reflect.Struct {
 			err := binary.Write(w, p.Order(), refVal.Field(i).Interface())
 			if err != nil {
 				return pos, fmt.Errorf("problem reading sub-structure. %v", err)
@@ -271,7 +344,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 			n += s
 			align := p.Align(refType.Elem())
 			if s%align != 0 {
-				s, err = r.Read(make([]byte, align-s%align))
+				s, err = io.ReadFull(r, make([]byte, align-s%align))
 				if err != nil {
 					return n, fmt.Errorf("problem reading slice element padding: %w", err)
 				}
@@ -283,6 +356,8 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 	case reflect.Struct:
 		// continue on
 
+	default:
+		return 0, fmt.Errorf("cannot unpack into a %v", refType)
 	}
 	for i := 0; i < refType.NumField(); i++ {
 		field := refType.Field(i)
@@ -304,7 +379,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 					for ai := 0; ai < l; ai++ {
 						if bitpos == 0 {
 							br := []byte{0}
-							_, err = r.Read(br)
+							_, err = io.ReadFull(r, br)
 							if err != nil {
 								return n, fmt.Errorf("problem reading bool. %w", err)
 							}
@@ -327,7 +402,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 				// try to pack bools
 				if bitpos == 0 {
 					br := []byte{0}
-					_, err = r.Read(br)
+					_, err = io.ReadFull(r, br)
 					if err != nil {
 						return n, fmt.Errorf("problem reading packed bool. %w", err)
 					}
@@ -359,7 +434,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		if rem < a && rem > 0 {
 			// need paddding bits
 			pad := make([]byte, rem)
-			_, err = r.Read(pad)
+			_, err = io.ReadFull(r, pad)
 			if err != nil {
 				return
 			}
@@ -367,7 +442,12 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if p.isStructArray(field.Type) {
+			s, err = p.unpackArray(r, refVal.Field(i))
+			if err != nil {
+				return
+			}
+		} else if k != reflect.Struct {
 			//binary.Read(r, p.Order(), refVal.Field(i).Interface())
 			err = binary.Read(r, p.Order(), refVal.Field(i).Addr().Interface())
 			if err != nil {
-- 
2.43.0


From ed8e00ccc41460fc53ed8cdc4ef1b99add5b1621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 02/46] fix: single reads of one-element slices work and
 unsupported destinations are refused

---
 read.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index d81fc46..8dc66b0 100644
--- a/read.go
+++ b/read.go
@@ -367,6 +367,8 @@ func (client *Client) Read(tag string, data any) error {
 			return fmt.Errorf("couldn't parse str data element %w", err)
 		}
 
+	default:
+		return fmt.Errorf("cannot read %s into a %T: need a pointer or a slice", tag, data)
 	}
 
 	return nil
@@ -551,6 +553,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 
 func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T, error) {
 	t := make([]T, elements)
+	if elements == 0 {
+		return t, fmt.Errorf("cannot read zero elements of %s", tag)
+	}
 	ct, _ := GoVarToCIPType(t[0])
 	val, err := client.Read_single(tag, ct, elements)
 	if err != nil {
@@ -568,7 +573,11 @@ func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T
 	//cast, ok := val.([]T)
 	cast, ok := val.([]any)
 	if !ok {
-		return t, fmt.Errorf("couldn't cast array. %w", err)
+		if elements != 1 {
+			return t, fmt.Errorf("couldn't cast array from %T", val)
+		}
+		// a single element comes back as the bare value.
+		cast = []any{val}
 	}
 	for i, v := range cast {
 		if ct == CIPTypeSTRING {
-- 
2.43.0


From 2b06d0935185497e96af9c7defbffad99c3a0691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 03/46] fix: ReadPacked reads the structure instead of
 panicking

---
 pack.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pack.go b/pack.go
index 9290d97..10cdd73 100644
--- a/pack.go
+++ b/pack.go
@@ -468,17 +468,14 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 
 func ReadPacked[T any](client *Client, tag string) (T, error) {
 	var data T
-	buf := new(bytes.Buffer)
-	size, err := Pack(buf, data)
-	if err != nil {
-		return data, err
-	}
-
-	b := make([]byte, size)
-	err = client.Read(tag, &b)
+	val, err := client.Read_single(tag, CIPTypeStruct, 1)
 	if err != nil {
 		return data, fmt.Errorf("couldn't read %s as bytes. %w", tag, err)
 	}
+	b, ok := val.([]byte)
+	if !ok {
+		return data, fmt.Errorf("%s is not a structure but a %T", tag, val)
+	}
 	_, err = Unpack(bytes.NewBuffer(b), &data)
 	if err != nil {
 		return data, fmt.Errorf("problem unpacking from buffer. %w", err)
-- 
2.43.0


From 21b3f2bb90cafa82f90c6944b12e7f058b36cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 04/46] fix: an array member ends a run of packed bools in the
 type encoding

---
 pack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pack.go b/pack.go
index 10cdd73..81ba4b3 100644
--- a/pack.go
+++ b/pack.go
@@ -520,6 +520,10 @@ func TypeEncode(data any) (string, uint16, error) {
 		case reflect.Array:
 			// we have an array without "nopack".  Check if it is a bool array
 			arr := refVal.Field(i)
+			if arr.Type().Elem().Kind() != reflect.Bool {
+				// the run of packed bools ends here.
+				bitpos = 0
+			}
 			var at string
 			if arr.Type().Elem().Kind() != reflect.Struct {
 				at, _ = goTypeToLogixTypeName(field.Type.Elem())
-- 
2.43.0


From 140933eecfcfa3ed230be8708fd4707206c4e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 05/46] fix: refuse to write strings longer than a STRING tag
 holds

---
 write.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/write.go b/write.go
index 72d2f70..6914606 100644
--- a/write.go
+++ b/write.go
@@ -217,8 +217,37 @@ func (client *Client) write_udt(tag string, value any) error {
 	return err
 }
 
+// a STRING tag holds at most this many characters.
+const maxStringLength = 82
+
+// checkStringLength refuses text that does not fit into a STRING tag.
+func checkStringLength(value any) error {
+	check := func(s string) error {
+		if len(s) > maxStringLength {
+			return fmt.Errorf("string of %d characters does not fit: the limit is %d", len(s), maxStringLength)
+		}
+		return nil
+	}
+	switch x := value.(type) {
+	case string:
+		return check(x)
+	case *string:
+		return check(*x)
+	case []string:
+		for i, s := range x {
+			if err := check(s); err != nil {
+				return fmt.Errorf("element %d: %w", i, err)
+			}
+		}
+	}
+	return nil
+}
+
 // write a single value to a single tag.
 func (client *Client) write_single(tag string, value any) error {
+	if err := checkStringLength(value); err != nil {
+		return fmt.Errorf("cannot write %s: %w", tag, err)
+	}
 	//service = 0x4D // cipService_Write
 	datatype, _ := GoVarToCIPType(value)
 	ioi, err := client.newIOI(tag, datatype)
-- 
2.43.0


From 2613185ffca6d26054e02d818d69a7ed3144e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 06/46] fix: writing a nil value is an error instead of a panic

---
 write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/write.go b/write.go
index 6914606..ca0e7f5 100644
--- a/write.go
+++ b/write.go
@@ -250,6 +250,9 @@ func (client *Client) write_single(tag string, value any) error {
 	}
 	//service = 0x4D // cipService_Write
 	datatype, _ := GoVarToCIPType(value)
+	if datatype == CIPTypeUnknown {
+		return fmt.Errorf("cannot write a %T to %s", value, tag)
+	}
 	ioi, err := client.newIOI(tag, datatype)
 	if err != nil {
 		return fmt.Errorf("problem generating IOI. %w", err)
-- 
2.43.0


From 99a1af0631aab1d7aa46adba3b7b781986be465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 07/46] fix: batch reads deliver every value to its own place,
 fit the connection and report what cannot be read

---
 read.go | 181 +++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 154 insertions(+), 27 deletions(-)

diff --git a/read.go b/read.go
index 8dc66b0..85c5e65 100644
--- a/read.go
+++ b/read.go
@@ -5,6 +5,8 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
+	"math"
 	"reflect"
 )
 
@@ -490,6 +492,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(len(items[1].Rest())) {
+					return nil, fmt.Errorf("string %s has length %d but only %d characters", tag, str_hdr.Length, len(items[1].Rest()))
+				}
 				str := make([]byte, str_hdr.Length)
 				err = items[1].DeSerialize(&str)
 				if err != nil {
@@ -505,6 +510,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
 				}
+				if str_hdr.Length > maxStringLength {
+					return nil, fmt.Errorf("string %s element %d has impossible length %d", tag, i, str_hdr.Length)
+				}
 				str := make([]byte, 82)
 				err = items[1].DeSerialize(&str)
 				if err != nil {
@@ -722,12 +730,14 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// build the tag list from the structure by reflecting through the tags on the fields of the struct.
-	T := reflect.TypeOf(tag_str).Elem()
-	vf := reflect.VisibleFields(T)
+	ptr := reflect.ValueOf(tag_str)
+	if ptr.Kind() != reflect.Pointer || ptr.IsNil() || ptr.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("cannot read multiple tags into a %T: need a pointer to a struct or a map[string]any", tag_str)
+	}
+	val := ptr.Elem()
+	vf := reflect.VisibleFields(val.Type())
 	taglist := make([]tagDesc, 0, len(vf))
-	tags := make([]string, 0)
-	tag_map := make(map[string]int)
-	val := reflect.ValueOf(tag_str).Elem()
+	fields := make([]reflect.Value, 0, len(vf))
 	for i := range vf {
 		field := vf[i]
 		tagPath, ok := field.Tag.Lookup("gologix")
@@ -737,10 +747,16 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		v := val.Field(i).Interface()
+		fieldVal, err := val.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("cannot read %s into field %s: %w", tagPath, field.Name, err)
+		}
+		if !fieldVal.CanSet() {
+			return fmt.Errorf("cannot read %s into unexported field %s", tagPath, field.Name)
+		}
+		v := fieldVal.Interface()
 		t, elem := GoVarToCIPType(v)
-		tags = append(tags, tagPath)
-		tag_map[tagPath] = i
+		fields = append(fields, fieldVal)
 		taglist = append(taglist, tagDesc{
 			TagName:  tagPath,
 			TagType:  t,
@@ -755,27 +771,42 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// now unpack the result values back into the given structure
-	for i, tag := range tags {
-		fieldNo := tag_map[tag]
+	for i, fieldVal := range fields {
 		val := result_values[i]
 
-		v := reflect.ValueOf(&tag_str).Elem().Elem().Elem()
-
-		fieldVal := v.Field(fieldNo)
-
 		if fieldVal.Type().Kind() != reflect.Slice {
-			fieldVal.Set(reflect.ValueOf(val))
+			err = setResult(fieldVal, val)
 		} else {
-			l := fieldVal.Len()
-			for j := 0; j < l; j++ {
-				fieldVal.Index(j).Set(reflect.ValueOf(val).Index(j).Elem())
+			vals, ok := val.([]any)
+			if !ok {
+				// a single element comes back as the bare value.
+				vals = []any{val}
+			}
+			if len(vals) != fieldVal.Len() {
+				return fmt.Errorf("got %d instead of %d elements for %s", len(vals), fieldVal.Len(), taglist[i].TagName)
 			}
+			for j := 0; j < len(vals) && err == nil; j++ {
+				err = setResult(fieldVal.Index(j), vals[j])
+			}
+		}
+		if err != nil {
+			return fmt.Errorf("problem storing %s: %w", taglist[i].TagName, err)
 		}
 	}
 
 	return nil
 }
 
+// setResult stores a value read from the controller in a field of the same type.
+func setResult(dst reflect.Value, val any) error {
+	v := reflect.ValueOf(val)
+	if !v.IsValid() || !v.Type().AssignableTo(dst.Type()) {
+		return fmt.Errorf("the controller sent a %T, which does not fit a %v", val, dst.Type())
+	}
+	dst.Set(v)
+	return nil
+}
+
 type tagDesc struct {
 	TagName  string
 	TagType  CIPType
@@ -783,13 +814,40 @@ type tagDesc struct {
 	Struct   any
 }
 
+// responseSize is the number of bytes the value of the tag needs in the reply to a batch read.
+func (tag tagDesc) responseSize() int {
+	size := SizeOf(msgMultiReadResult{})
+	switch {
+	case tag.TagType == CIPTypeSTRING:
+		return size + 2 + 88*tag.Elements
+	case tag.TagType == CIPTypeStruct && reflect.ValueOf(tag.Struct).Kind() == reflect.Struct:
+		n, err := Pack(io.Discard, tag.Struct)
+		if err == nil {
+			return size + 2 + n
+		}
+	case tag.TagType == CIPTypeBOOL:
+		// might be a bit of an integer
+		return size + 8*tag.Elements
+	}
+	return size + tag.TagType.Size()*tag.Elements
+}
+
 func (client *Client) readList(tags []tagDesc) ([]any, error) {
 
+	for i := range tags {
+		if _, ok := tags[i].Struct.([]bool); ok {
+			return client.readListBoolArrays(tags)
+		}
+	}
+
 	// first generate IOIs for each tag
 	qty := len(tags)
 	iois := make([]*tagIOI, qty)
 	for i, tag := range tags {
 		var err error
+		if tag.Elements < 1 || tag.Elements > math.MaxUint16 {
+			return nil, fmt.Errorf("cannot read %d elements of %s", tag.Elements, tag.TagName)
+		}
 		iois[i], err = client.newIOI(tag.TagName, tag.TagType)
 		if err != nil {
 			return nil, err
@@ -812,6 +870,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	// and pack all the IOIs together into b
 	jump_table := make([]uint16, qty)
 	jump_start := 2 + qty*2 // 2 bytes + 2 bytes per jump entry
+	responseSize := SizeOf(msgMultiReadResultHeader{})
 	for i := 0; i < qty; i++ {
 		jump_table[i] = uint16(jump_start + b.Len())
 		ioi := iois[i]
@@ -832,11 +891,13 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			return nil, fmt.Errorf("problem writing ioi buffer to msg buffer. %w", err)
 		}
 
-		totalMsgSize := b.Len() + SizeOf(h) + SizeOf(f) + 2 // 2 for the jump table entry
-		// TODO: calculate the actual message size, not just the IOI data size.
-		// TODO: We also need to calculate the response size we expect from the PLC and split
-		//       into multiple messages on that also.
-		if totalMsgSize > int(client.ConnectionSize) {
+		totalMsgSize := SizeOf(ioi_header) + 2*(i+1) + b.Len() // 2 for each jump table entry
+		responseSize += 2 + tags[i].responseSize()
+		if totalMsgSize > int(client.ConnectionSize) && i == 0 {
+			return nil, fmt.Errorf("the request for %s does not fit into a connection of size %d", tags[i].TagName, client.ConnectionSize)
+		}
+		// a single tag is always requested, whatever the size of its value.
+		if (totalMsgSize > int(client.ConnectionSize) || responseSize > int(client.ConnectionSize)) && i > 0 {
 			first_part := tags[:i]
 			rest := tags[i:]
 
@@ -918,6 +979,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		return nil, fmt.Errorf("problem reading reply header item count. %w", err)
 	}
 
+	if int(reply_hdr.Reply_Count) != qty {
+		return nil, fmt.Errorf("got %d replies for %d tags", reply_hdr.Reply_Count, qty)
+	}
+
 	offset_table := make([]uint16, reply_hdr.Reply_Count)
 	err = binary.Read(&rItem, binary.LittleEndian, &offset_table)
 	if err != nil {
@@ -929,7 +994,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 	result_values := make([]interface{}, reply_hdr.Reply_Count)
 	for i := 0; i < int(reply_hdr.Reply_Count); i++ {
-		offset := offset_table[i] + 10 // offset doesn't start at 0 in the item
+		offset := int(offset_table[i]) + 10 // offset doesn't start at 0 in the item
+		if offset > len(rb) {
+			return nil, fmt.Errorf("reply for %v is outside the message", tags[i])
+		}
 		myBytes := bytes.NewBuffer(rb[offset:])
 		rHdr := msgMultiReadResult{}
 		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
@@ -954,16 +1022,21 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				}
 				val, err := getBit(rHdr.Type, value, iois[i].BitPosition)
 				if err != nil {
-					client.Logger.Warn("problem reading value for this guy")
-					continue
+					return nil, fmt.Errorf("problem reading bit of tag %v: %w", tags[i], err)
 				}
 				result_values[i] = val
 			} else if tags[i].TagType == CIPTypeSTRING {
+				if rHdr.Type != CIPTypeStruct {
+					return nil, fmt.Errorf("tag %v is a %v, not a string", tags[i], rHdr.Type)
+				}
 				str_hdr := cipStringHeader{}
 				err = binary.Read(myBytes, binary.LittleEndian, &str_hdr)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string struct header. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(myBytes.Len()) {
+					return nil, fmt.Errorf("string %v has length %d but only %d characters", tags[i], str_hdr.Length, myBytes.Len())
+				}
 				str := make([]byte, str_hdr.Length)
 				err = binary.Read(myBytes, binary.LittleEndian, str)
 				if err != nil {
@@ -982,8 +1055,11 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 					result_values[i] = myBytes.Bytes()
 					continue
 				}
+				if reflect.TypeOf(tags[i].Struct).Kind() != reflect.Struct {
+					return nil, fmt.Errorf("tag %v is a structure and does not fit a %T", tags[i], tags[i].Struct)
+				}
 				x := reflect.New(reflect.TypeOf(tags[i].Struct)).Interface()
-				err = binary.Read(myBytes, binary.LittleEndian, x)
+				_, err = Unpack(myBytes, x)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
@@ -1003,6 +1079,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			// string length. Reading only Length bytes would misalign the next
 			// element. This mirrors the per-element loop used in Read for
 			// arrays of strings (see read.go above).
+			if rHdr.Type != CIPTypeStruct {
+				return nil, fmt.Errorf("tag %v is a %v, not a string", tags[i], rHdr.Type)
+			}
 			val := make([]any, tags[i].Elements)
 			for respIndex := 0; respIndex < tags[i].Elements; respIndex++ {
 				str_hdr := cipStringHeader{}
@@ -1010,6 +1089,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string header for tag %v element %d: %w", tags[i], respIndex, err)
 				}
+				if str_hdr.Length > maxStringLength {
+					return nil, fmt.Errorf("string %v element %d has impossible length %d", tags[i], respIndex, str_hdr.Length)
+				}
 				str := make([]byte, 82)
 				err = binary.Read(myBytes, binary.LittleEndian, str)
 				if err != nil {
@@ -1036,6 +1118,51 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 
 }
 
+// readListBoolArrays reads tags among which there are boolean arrays, which the controller
+// stores as arrays of 32 bit words.
+func (client *Client) readListBoolArrays(tags []tagDesc) ([]any, error) {
+	words := make([]tagDesc, len(tags))
+	copy(words, tags)
+	bits := make([]int, len(tags))
+	for i, tag := range tags {
+		b, ok := tag.Struct.([]bool)
+		if !ok {
+			continue
+		}
+		bits[i] = len(b)
+		if len(b) == 0 {
+			bits[i] = tag.Elements
+		}
+		if bits[i] == 0 || bits[i]%32 != 0 {
+			return nil, fmt.Errorf("the length of %s must be a multiple of 32 for []bool, got %d", tag.TagName, bits[i])
+		}
+		words[i] = tagDesc{TagName: tag.TagName, TagType: CIPTypeDWORD, Elements: bits[i] / 32, Struct: uint32(0)}
+	}
+	results, err := client.readList(words)
+	if err != nil {
+		return nil, err
+	}
+	for i := range results {
+		if bits[i] == 0 {
+			continue
+		}
+		vals, ok := results[i].([]any)
+		if !ok {
+			vals = []any{results[i]}
+		}
+		val := make([]any, bits[i])
+		for j := range val {
+			word, ok := vals[j/32].(uint32)
+			if !ok {
+				return nil, fmt.Errorf("tag %s is not a boolean array", tags[i].TagName)
+			}
+			val[j] = word&(1<<(j%32)) != 0
+		}
+		results[i] = val
+	}
+	return results, nil
+}
+
 func parseArrayStruct[T GoLogixTypes](dat []byte, elements uint16) ([]T, error) {
 	t := make([]T, elements)
 	// val should be a byte slice
-- 
2.43.0


From ff5fc3071a535e97d7ce7af90f4a11b4ccd2ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 08/46] fix: batch writes check the replies, write arrays and
 structures and are split to fit the connection

---
 udt_write.go | 274 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 191 insertions(+), 83 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 593cdb1..7357da0 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -19,21 +20,17 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := f.Tag.Get("gologix")
-		switch v.Kind() {
-		case reflect.Struct:
-			d2, err := udt_to_dict(fulltag, v.Interface())
-			if err != nil {
-				return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
-			}
-			for k := range d2 {
-				d[k] = d2[k]
-			}
-		case reflect.Array:
-			//TODO
-		default:
-			d[fulltag] = v.Interface()
+		if fulltag == "" {
+			// not meant for the controller
+			continue
+		}
+		if !f.IsExported() {
+			return nil, fmt.Errorf("cannot write unexported field %s to %s", f.Name, fulltag)
+		}
+		err := value_to_dict(d, fulltag, v)
+		if err != nil {
+			return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
 		}
-
 	}
 
 	return d, nil
@@ -52,30 +49,58 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := fmt.Sprintf("%s.%s", tag, f.Name)
-		switch v.Kind() {
-
+		if !f.IsExported() {
+			return nil, fmt.Errorf("cannot write unexported field %s", fulltag)
 		}
-		switch v.Kind() {
-		case reflect.Struct:
-			d2, err := udt_to_dict(fulltag, v.Interface())
-			if err != nil {
-				return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
-			}
-			for k := range d2 {
-				d[k] = d2[k]
-			}
-		case reflect.Array:
-			//TODO
-		default:
-			d[fulltag] = v.Interface()
+		err := value_to_dict(d, fulltag, v)
+		if err != nil {
+			return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
 		}
-
 	}
 
 	return d, nil
 
 }
 
+// add the value of one tag to the map. Structures are written member by member.
+func value_to_dict(d map[string]interface{}, tag string, v reflect.Value) error {
+	add := func(tag string, value any) error {
+		if _, exists := d[tag]; exists {
+			return fmt.Errorf("there is more than one value for %s", tag)
+		}
+		d[tag] = value
+		return nil
+	}
+	switch v.Kind() {
+	case reflect.Struct:
+		d2, err := udt_to_dict(tag, v.Interface())
+		if err != nil {
+			return err
+		}
+		for k := range d2 {
+			if err := add(k, d2[k]); err != nil {
+				return err
+			}
+		}
+		return nil
+	case reflect.Array:
+		switch v.Type().Elem().Kind() {
+		case reflect.Struct, reflect.Array:
+			for i := 0; i < v.Len(); i++ {
+				err := value_to_dict(d, fmt.Sprintf("%s[%d]", tag, i), v.Index(i))
+				if err != nil {
+					return err
+				}
+			}
+			return nil
+		}
+		s := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), v.Len(), v.Len())
+		reflect.Copy(s, v)
+		return add(tag, s.Interface())
+	}
+	return add(tag, v.Interface())
+}
+
 // WriteMap writes multiple tags efficiently using a map where keys are tag names and values are the data to write.
 //
 // The map keys specify the tag names to write to in the PLC (case insensitive).
@@ -126,26 +151,98 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 // or any tags are read-only.
 func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 
-	// build the tag list from the structure
-	tags := make([]string, 0)
-	types := make([]CIPType, 0)
-	for k := range tag_str {
-		ct, _ := GoVarToCIPType(tag_str[k])
-		types = append(types, ct)
-		tags = append(tags, k)
-	}
-
-	// first generate IOIs for each tag
-	qty := len(tags)
-	iois := make([]*tagIOI, qty)
-	for i, tag := range tags {
-		var err error
-		iois[i], err = client.newIOI(tag, types[i])
+	err := client.checkConnection()
+	if err != nil {
+		return fmt.Errorf("could not start map write: %w", err)
+	}
+
+	// build the write request of each tag
+	requests := make([][]byte, 0, len(tag_str))
+	for tag, value := range tag_str {
+		request, err := client.newWriteRequest(tag, value)
+		if err != nil {
+			return fmt.Errorf("cannot write %s: %w", tag, err)
+		}
+		if SizeOf(msgCIPConnectedMultiServiceReq{})+2+len(request) > int(client.ConnectionSize) {
+			return fmt.Errorf("the value of %s does not fit into a connection of size %d", tag, client.ConnectionSize)
+		}
+		requests = append(requests, request)
+	}
+
+	// send as many of them at a time as fit into a message.
+	for len(requests) > 0 {
+		n := 0
+		size := SizeOf(msgCIPConnectedMultiServiceReq{})
+		for n < len(requests) && size+2+len(requests[n]) <= int(client.ConnectionSize) {
+			size += 2 + len(requests[n]) // 2 for the jump table entry
+			n++
+		}
+		err = client.sendWriteRequests(requests[:n])
 		if err != nil {
 			return err
 		}
+		requests = requests[n:]
+	}
+
+	return nil
+}
+
+// newWriteRequest builds the request to write one tag, as it is embedded in a multiple service request.
+func (client *Client) newWriteRequest(tag string, value any) ([]byte, error) {
+	if err := checkStringLength(value); err != nil {
+		return nil, err
+	}
+	ct, elements := GoVarToCIPType(value)
+	ioi, err := client.newIOI(tag, ct)
+	if err != nil {
+		return nil, err
 	}
 
+	item := CIPItem{}
+	err = item.Serialize(msgCIPMultiIOIHeader{
+		Service: CIPService_Write,
+		Size:    byte(len(ioi.Buffer) / 2),
+	}, ioi.Buffer)
+	if err != nil {
+		return nil, fmt.Errorf("problem serializing path: %w", err)
+	}
+
+	if reflect.ValueOf(value).Kind() == reflect.Struct {
+		_, typecrc, err := TypeEncode(value)
+		if err != nil {
+			return nil, fmt.Errorf("problem encoding type: %w", err)
+		}
+		err = item.Serialize(CIPTypeStruct, byte(2), typecrc, uint16(1))
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing type: %w", err)
+		}
+		_, err = Pack(&item, value)
+		if err != nil {
+			return nil, fmt.Errorf("problem packing data: %w", err)
+		}
+		return item.Data, nil
+	}
+
+	if ct == CIPTypeUnknown || ct == CIPTypeStruct {
+		return nil, fmt.Errorf("cannot write a %T", value)
+	}
+	if elements < 1 || elements > math.MaxUint16 {
+		return nil, fmt.Errorf("cannot write %d elements", elements)
+	}
+	err = item.Serialize(msgCIPWriteIOIFooter{
+		DataType: uint16(ct),
+		Elements: uint16(elements),
+	}, value)
+	if err != nil {
+		return nil, fmt.Errorf("problem serializing value: %w", err)
+	}
+	return item.Data, nil
+}
+
+// sendWriteRequests sends write requests in one message and checks that all of them succeeded.
+func (client *Client) sendWriteRequests(requests [][]byte) error {
+	qty := len(requests)
+
 	reqitems := make([]CIPItem, 2)
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
@@ -158,45 +255,13 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	}
 
 	b := bytes.Buffer{}
-	// we now have to build up the jump table for each IOI.
-	// and pack all the IOIs together into b
+	// we now have to build up the jump table for each request.
+	// and pack all the requests together into b
 	jump_table := make([]uint16, qty)
 	jump_start := 2 + qty*2 // 2 bytes + 2 bytes per jump entry
 	for i := 0; i < qty; i++ {
 		jump_table[i] = uint16(jump_start + b.Len())
-		ioi := iois[i]
-		h := msgCIPMultiIOIHeader{
-			Service: CIPService_Write,
-			Size:    byte(len(ioi.Buffer) / 2),
-		}
-		f := msgCIPWriteIOIFooter{
-			DataType: uint16(types[i]),
-			Elements: 1,
-		}
-		//f := msgCIPIOIFooter{
-		//Elements: 1,
-		//}
-		err := binary.Write(&b, binary.LittleEndian, h)
-		if err != nil {
-			return fmt.Errorf("problem writing udt item header to buffer. %w", err)
-		}
-		b.Write(ioi.Buffer)
-		ftr_buf, err := Serialize(f)
-		if err != nil {
-			return fmt.Errorf("problem serializing footer for item %d: %w", i, err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, ftr_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt item footer to buffer. %w", err)
-		}
-		item_buf, err := Serialize(tag_str[tags[i]])
-		if err != nil {
-			return fmt.Errorf("problem serializing %v: %w", tags[i], err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, item_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt tag name to buffer. %w", err)
-		}
+		b.Write(requests[i])
 	}
 
 	// right now I'm putting the IOI data into the cip Item, but I suspect it might actually be that the readsequencer is
@@ -216,9 +281,52 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	if err != nil {
 		return err
 	}
-	_ = hdr
-	_ = data
-	//TODO: do something with the result here!
+	if hdr.Status != 0 {
+		return fmt.Errorf("got non-success status %d when writing", hdr.Status)
+	}
+
+	var result_header msgCIPResultHeader
+	err = binary.Read(data, binary.LittleEndian, &result_header)
+	if err != nil {
+		return fmt.Errorf("problem reading write result header: %w", err)
+	}
+	items, err := readItems(data)
+	if err != nil {
+		return fmt.Errorf("problem reading items from write: %w", err)
+	}
+	if len(items) != 2 {
+		return fmt.Errorf("wrong number of items. expected 2 but got %d", len(items))
+	}
+	var reply_hdr msgWriteResultHeader
+	err = items[1].DeSerialize(&reply_hdr)
+	if err != nil {
+		return fmt.Errorf("problem deserializing write response header: %w", err)
+	}
+	if reply_hdr.Status != CIPStatus_OK {
+		return fmt.Errorf("write returned status %v", reply_hdr.Status)
+	}
+
+	// each of the embedded requests has its own status.
+	replies := items[1].Rest()
+	reply_count, err := items[1].Uint16()
+	if err != nil {
+		return fmt.Errorf("problem reading reply count: %w", err)
+	}
+	if int(reply_count) != qty {
+		return fmt.Errorf("got %d replies for %d writes", reply_count, qty)
+	}
+	for i := 0; i < qty; i++ {
+		offset, err := items[1].Uint16()
+		if err != nil {
+			return fmt.Errorf("problem reading offset of reply %d: %w", i, err)
+		}
+		if int(offset)+4 > len(replies) {
+			return fmt.Errorf("reply %d is outside the message", i)
+		}
+		if status := CIPStatus(replies[offset+2]); status != CIPStatus_OK {
+			return fmt.Errorf("one of the writes returned status %v", status)
+		}
+	}
 
 	return nil
 }
-- 
2.43.0


From 5d242f64f0a5ceaa67a2ddf650998ce8e231655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 09/46] fix: tag paths that cannot be encoded are refused
 instead of addressing another tag

---
 ioi.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/ioi.go b/ioi.go
index 0ae72ff..b4a2b66 100644
--- a/ioi.go
+++ b/ioi.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -51,7 +52,7 @@ func (tag *tagPartDescriptor) Parse(tagpath string) error {
 			parts := strings.Split(arr_access_text, ",")
 			tag.Array_Order = make([]int, len(parts))
 			for i, part := range parts {
-				tag.Array_Order[i], err = strconv.Atoi(part)
+				tag.Array_Order[i], err = strconv.Atoi(strings.TrimSpace(part))
 				if err != nil {
 					return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
 				}
@@ -59,7 +60,7 @@ func (tag *tagPartDescriptor) Parse(tagpath string) error {
 
 		} else {
 			tag.Array_Order = make([]int, 1)
-			tag.Array_Order[0], err = strconv.Atoi(arr_access_text)
+			tag.Array_Order[0], err = strconv.Atoi(strings.TrimSpace(arr_access_text))
 			if err != nil {
 				return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
 			}
@@ -146,10 +147,13 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 	// we'll build this byte structure up as we go.
 	ioi.Buffer = make([]byte, 0, defaultIOIBufferSize)
 
-	for _, tag_part := range tag_array {
+	for i, tag_part := range tag_array {
 		if strings.HasSuffix(tag_part, "]") {
 			// part of an array
 			start_index := strings.Index(tag_part, "[")
+			if arrpos := array_access_regex.FindStringIndex(tag_part); arrpos == nil || arrpos[0] != start_index {
+				return nil, fmt.Errorf("bad array index in %s", tagpath)
+			}
 			ioi_part, err := marshalIOIPart(tag_part[0:start_index])
 			if err != nil {
 				return nil, err
@@ -162,10 +166,13 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 			t, err := parse_tag_name(tag_part)
 			if err != nil {
-				client.Logger.Warn("problem parsing path", "error", err)
+				return nil, fmt.Errorf("problem parsing path %s: %w", tagpath, err)
 			}
 
 			for _, order_size := range t.Array_Order {
+				if int64(order_size) > math.MaxUint32 {
+					return nil, fmt.Errorf("array index %d in %s is too big", order_size, tagpath)
+				}
 				if order_size < 256 {
 					// byte, byte
 					index_part := []byte{byte(cipElement_8bit), byte(order_size)}
@@ -198,7 +205,7 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 		} else {
 			// not part of an array
 			bit_access, err := strconv.Atoi(tag_part)
-			if err == nil && bit_access <= 31 {
+			if err == nil && i == len(tag_array)-1 && i > 0 && bit_access >= 0 && bit_access <= 63 {
 				// This is a bit access.
 				// we won't do anything for now and will just parse the
 				// bit out of the word when that time comes.
@@ -219,6 +226,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 	}
 
+	if len(ioi.Buffer)/2 > math.MaxUint8 {
+		return nil, fmt.Errorf("path %s is too long", tagpath)
+	}
+
 	client.ioi_cache[tagpath] = ioi
 	return
 }
@@ -229,6 +240,9 @@ func marshalIOIPart(tagpath string) ([]byte, error) {
 		return nil, fmt.Errorf("could not parse tag path: %w", err)
 	}
 	tag_size := len(t.BasePath)
+	if tag_size == 0 || tag_size > math.MaxUint8 {
+		return nil, fmt.Errorf("%q is not a valid part of a tag name", tagpath)
+	}
 	need_extend := false
 	if tag_size%2 == 1 {
 		need_extend = true
-- 
2.43.0


From 019a3e8e881f1e601d85017130d28be471ca9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 10/46] fix: bit addresses read the addressed bit of every
 integer type or fail, and are not mistaken for the whole integer

---
 read.go      | 24 +++++++++++++++++++++---
 types.go     | 10 +++++-----
 udt_write.go |  3 +++
 write.go     |  6 ++++++
 4 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/read.go b/read.go
index 85c5e65..5f217d1 100644
--- a/read.go
+++ b/read.go
@@ -414,6 +414,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	if err != nil {
 		return nil, err
 	}
+	if ioi.BitAccess && (elements != 1 || !mayBeBit(datatype)) {
+		return nil, fmt.Errorf("cannot read %d %v from %s: it is a single bit", elements, datatype, tag)
+	}
 
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -485,6 +488,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	}
 
 	if hdr2.Type == CIPTypeStruct {
+		if ioi.BitAccess {
+			return nil, fmt.Errorf("%s is a structure and has no bits", tag)
+		}
 		if datatype == CIPTypeSTRING {
 			if elements == 1 {
 				str_hdr := cipStringHeader{}
@@ -531,13 +537,17 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 		return str, nil
 	}
 	if elements == 1 {
-		if datatype == CIPTypeBOOL && hdr2.Type != CIPTypeBOOL && ioi.BitAccess {
+		if ioi.BitAccess {
 			// we have requested a bool from some other type.  Maybe a bit access?
 			value, err := readValue(hdr2.Type, &items[1])
 			if err != nil {
 				return nil, fmt.Errorf("problem reading bool tag %s: %w", tag, err)
 			}
-			return getBit(hdr2.Type, value, ioi.BitPosition)
+			bit, err := getBit(hdr2.Type, value, ioi.BitPosition)
+			if err != nil {
+				return nil, fmt.Errorf("problem reading bit of tag %s: %w", tag, err)
+			}
+			return bit, nil
 		}
 		// not a struct so we can read the value directly
 		value, err := readValue(hdr2.Type, &items[1])
@@ -807,6 +817,11 @@ func setResult(dst reflect.Value, val any) error {
 	return nil
 }
 
+// mayBeBit tells whether a bit of an integer can be read as type t.
+func mayBeBit(t CIPType) bool {
+	return t == CIPTypeBOOL || t == CIPTypeUnknown || t == CIPTypeStruct
+}
+
 type tagDesc struct {
 	TagName  string
 	TagType  CIPType
@@ -852,6 +867,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		if err != nil {
 			return nil, err
 		}
+		if iois[i].BitAccess && (tag.Elements != 1 || !mayBeBit(tag.TagType)) {
+			return nil, fmt.Errorf("cannot read %d %v from %s: it is a single bit", tag.Elements, tag.TagType, tag.TagName)
+		}
 	}
 
 	reqItems := make([]CIPItem, 2)
@@ -1014,7 +1032,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
 		}
 		if tags[i].Elements == 1 {
-			if tags[i].TagType == CIPTypeBOOL && rHdr.Type != CIPTypeBOOL && iois[i].BitAccess {
+			if iois[i].BitAccess {
 				// we have requested a bool from some other type.  Maybe a bit access?
 				value, err := readValue(rHdr.Type, myBytes)
 				if err != nil {
diff --git a/types.go b/types.go
index 75730d6..5041d6b 100644
--- a/types.go
+++ b/types.go
@@ -269,7 +269,7 @@ func readValue(t CIPType, r io.Reader) (any, error) {
 		var trueval uint32
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
-	case CIPTypeLWORD:
+	case CIPTypeLWORD, CIPTypeULINT:
 		var trueval uint64
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
@@ -336,9 +336,9 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 		}
 	case CIPTypeSINT:
 		if bitpos >= 0 && bitpos < 8 {
-			x, ok := v.(byte)
+			x, ok := v.(int8)
 			if ok {
-				mask := byte(1 << bitpos)
+				mask := int8(1 << bitpos)
 				masked := x & mask
 				return masked != 0, nil
 			}
@@ -404,7 +404,7 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 			}
 			err = fmt.Errorf("value was a UDINT, but bit %d was requested. must be 0-31 for UDINT", bitpos)
 		}
-	case CIPTypeLWORD:
+	case CIPTypeLWORD, CIPTypeULINT:
 		if bitpos >= 0 && bitpos < 64 {
 			x, ok := v.(uint64)
 			if ok {
@@ -448,5 +448,5 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	return false, err
+	return false, fmt.Errorf("%v has no bit %d", t, bitpos)
 }
diff --git a/udt_write.go b/udt_write.go
index 7357da0..34f6a92 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -197,6 +197,9 @@ func (client *Client) newWriteRequest(tag string, value any) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if ioi.BitAccess {
+		return nil, fmt.Errorf("writing single bits is not supported")
+	}
 
 	item := CIPItem{}
 	err = item.Serialize(msgCIPMultiIOIHeader{
diff --git a/write.go b/write.go
index ca0e7f5..1fde379 100644
--- a/write.go
+++ b/write.go
@@ -120,6 +120,9 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem generating IOI. %w", err)
 	}
+	if ioi.BitAccess {
+		return fmt.Errorf("cannot write %s: writing single bits is not supported", tag)
+	}
 	elements := uint16(1)
 
 	ioi_header := msgCIPIOIHeader{
@@ -257,6 +260,9 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem generating IOI. %w", err)
 	}
+	if ioi.BitAccess {
+		return fmt.Errorf("cannot write %s: writing single bits is not supported", tag)
+	}
 	elements := uint16(1)
 
 	v := reflect.ValueOf(value)
-- 
2.43.0


From dd4ff34064372470bb1ef18b1932366586a1a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 11/46] fix: each reply of a batch read is decoded within its
 own bytes

---
 read.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 5f217d1..aa93d49 100644
--- a/read.go
+++ b/read.go
@@ -1013,10 +1013,14 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	result_values := make([]interface{}, reply_hdr.Reply_Count)
 	for i := 0; i < int(reply_hdr.Reply_Count); i++ {
 		offset := int(offset_table[i]) + 10 // offset doesn't start at 0 in the item
-		if offset > len(rb) {
+		end := len(rb)
+		if i+1 < len(offset_table) {
+			end = int(offset_table[i+1]) + 10
+		}
+		if offset > end || end > len(rb) {
 			return nil, fmt.Errorf("reply for %v is outside the message", tags[i])
 		}
-		myBytes := bytes.NewBuffer(rb[offset:])
+		myBytes := bytes.NewBuffer(rb[offset:end])
 		rHdr := msgMultiReadResult{}
 		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
 		if err != nil {
-- 
2.43.0


From 931824ecc35db35f773f1f5fe9c783cb9e8a96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 12/46] fix: requests that do not fit the connection or a
 packet are refused instead of being sent

---
 sendreceive.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index ad1efd2..ae64520 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"time"
 )
 
@@ -16,6 +17,10 @@ type eipHeader struct {
 	Options       uint32
 }
 
+// connectedOverhead is the part of a connected message that does not count towards the size of the connection:
+// the items header, the connection address item and the header of the connected data item.
+const connectedOverhead = 8 + 4 + 4 + 4
+
 // prepares a bytes buffer for sending a message
 func (client *Client) sendMsgBuild(cmd CIPCommand, msgs ...any) ([]byte, error) {
 	// calculate messageLen of all message parts
@@ -23,6 +28,12 @@ func (client *Client) sendMsgBuild(cmd CIPCommand, msgs ...any) ([]byte, error)
 	for _, msg := range msgs {
 		messageLen += binary.Size(msg)
 	}
+	if messageLen > math.MaxUint16 {
+		return nil, fmt.Errorf("message of %d bytes is too long for a packet", messageLen)
+	}
+	if cmd == cipCommandSendUnitData && client.ConnectionSize != 0 && messageLen-connectedOverhead > int(client.ConnectionSize) {
+		return nil, fmt.Errorf("request of %d bytes does not fit into a connection of size %d", messageLen-connectedOverhead, client.ConnectionSize)
+	}
 	// build header based on size
 	hdr := client.newEIPHeader(cmd, messageLen)
 
-- 
2.43.0


From f2a5d73e8c4ea808b1e608f6debf5289d60a11d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 13/46] fix: failed connects close their socket, refused
 sessions are errors and requests without a connection do not panic

---
 connect.go     | 12 +++++++++++-
 disconnect.go  | 11 ++++++-----
 sendreceive.go |  8 +++++++-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/connect.go b/connect.go
index 83ca1b4..34b15c7 100644
--- a/connect.go
+++ b/connect.go
@@ -76,6 +76,10 @@ func (client *Client) Connect() error {
 	defer func() {
 		if !success {
 			client.mutex.Lock()
+			if client.conn != nil {
+				client.conn.Close()
+				client.conn = nil
+			}
 			client.connStatus = connectionStatusDisconnected
 			client.mutex.Unlock()
 		}
@@ -127,7 +131,10 @@ func (client *Client) Connect() error {
 	}
 
 	address := fmt.Sprintf("%s:%v", client.Controller.IpAddress, client.Controller.Port)
-	client.conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
+	conn, err := net.DialTimeout("tcp", address, client.SocketTimeout)
+	client.mutex.Lock()
+	client.conn = conn
+	client.mutex.Unlock()
 	if err != nil {
 		msg := "cannot connect to controller"
 		client.Logger.Error(msg, slog.Any("err", err))
@@ -187,6 +194,9 @@ func (client *Client) registerSession() error {
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	if header.Status != 0 {
+		return fmt.Errorf("controller refused to register a session. status: 0x%X", header.Status)
+	}
 	client.SessionHandle = header.SessionHandle
 	client.Logger.Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
 	return nil
diff --git a/disconnect.go b/disconnect.go
index d32051c..064dd63 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -61,6 +61,12 @@ func (client *Client) Disconnect() error {
 	// No matter what happens, when we finish here, we'll consider the connection disconnected.
 	defer func() {
 		client.mutex.Lock()
+		if client.conn != nil {
+			if err := client.conn.Close(); err != nil {
+				client.Logger.Error("error closing connection", slog.Any("err", err))
+			}
+			client.conn = nil
+		}
 		client.connStatus = connectionStatusDisconnected
 		client.mutex.Unlock()
 	}()
@@ -132,11 +138,6 @@ func (client *Client) Disconnect() error {
 		}
 	}
 
-	err = client.conn.Close()
-	if err != nil {
-		client.Logger.Error("error closing connection", slog.Any("err", err))
-	}
-
 	client.Logger.Info("successfully disconnected from controller")
 	return nil
 }
diff --git a/sendreceive.go b/sendreceive.go
index ae64520..cd6a274 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -93,6 +93,10 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
 	client.mutex.Lock()
+	if client.conn == nil {
+		client.mutex.Unlock()
+		return eipHeader{}, nil, fmt.Errorf("not connected")
+	}
 
 	err = client.sendData(buffer)
 	if err != nil {
@@ -162,7 +166,9 @@ func (client *Client) recvData() (eipHeader, *bytes.Buffer, error) {
 }
 
 func (client *Client) DebugCloseConn() {
-	client.conn.Close()
+	if conn := client.conn; conn != nil {
+		conn.Close()
+	}
 }
 
 func (client *Client) newEIPHeader(cmd CIPCommand, size int) (hdr eipHeader) {
-- 
2.43.0


From 86fab62555eb123e3194fabad93d9d36b499a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 14/46] fix: keepalive runs once per connection and can be
 cancelled at any time without a panic

---
 connect.go    | 37 +++++++++++++++++++++++++++++--------
 disconnect.go | 17 +++++++++++++----
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/connect.go b/connect.go
index 34b15c7..7d2859d 100644
--- a/connect.go
+++ b/connect.go
@@ -87,6 +87,9 @@ func (client *Client) Connect() error {
 			client.mutex.Lock()
 			client.connStatus = connectionStatusConnected
 			client.mutex.Unlock()
+			if client.KeepAliveAutoStart {
+				go client.KeepAlive()
+			}
 		}
 	}()
 
@@ -170,9 +173,6 @@ func (client *Client) Connect() error {
 	}
 
 	success = true
-	if client.KeepAliveAutoStart {
-		go client.KeepAlive()
-	}
 	return nil
 }
 
@@ -206,14 +206,31 @@ func (client *Client) KeepAlive() {
 	if !client.KeepAliveAutoStart || client.SocketTimeout == 0 {
 		return
 	}
+	if client.KeepAliveFrequency <= 0 {
+		client.Logger.Error("keepalive needs a positive frequency", slog.Any("frequency", client.KeepAliveFrequency))
+		return
+	}
+	client.mutex.Lock()
 	if client.keepAliveRunning {
+		client.mutex.Unlock()
 		err := errors.New("keepalive already running")
 		client.Logger.Warn(err.Error())
+		return
 	}
-	client.Logger.Debug("starting keep alive")
-	client.cancel_keepalive = make(chan struct{})
+	cancel := make(chan struct{})
+	client.cancel_keepalive = cancel
 	client.keepAliveRunning = true
-	defer func() { client.keepAliveRunning = false }()
+	client.mutex.Unlock()
+	client.Logger.Debug("starting keep alive")
+	defer func() {
+		client.mutex.Lock()
+		// a new keepalive may have been started since this one was cancelled.
+		if client.cancel_keepalive == cancel {
+			client.cancel_keepalive = nil
+			client.keepAliveRunning = false
+		}
+		client.mutex.Unlock()
+	}()
 
 	originalProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	if err != nil {
@@ -238,6 +255,11 @@ func (client *Client) KeepAlive() {
 	for {
 		select {
 		case <-t.C:
+			select {
+			case <-cancel:
+				return
+			default:
+			}
 			if !client.Connected() {
 				client.Logger.Warn("keepalive failed. not connected")
 				return
@@ -274,8 +296,7 @@ func (client *Client) KeepAlive() {
 				originalProps = newProps
 			}
 
-		case <-client.cancel_keepalive:
-			client.KeepAliveAutoStart = false
+		case <-cancel:
 			return
 		}
 	}
diff --git a/disconnect.go b/disconnect.go
index 064dd63..d2176be 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -71,9 +71,7 @@ func (client *Client) Disconnect() error {
 		client.mutex.Unlock()
 	}()
 
-	if client.keepAliveRunning {
-		close(client.cancel_keepalive)
-	}
+	client.stopKeepAlive()
 
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{} // null item
@@ -148,10 +146,21 @@ func (client *Client) KeepAliveCancel(force bool) error {
 	if client.KeepAliveAutoStart && !force {
 		return fmt.Errorf("unable to cancel keepalive due to AutoKeepAlive == true")
 	}
-	close(client.cancel_keepalive)
+	client.stopKeepAlive()
 	return nil
 }
 
+// stopKeepAlive cancels the keepalive if there is one.
+func (client *Client) stopKeepAlive() {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	if client.cancel_keepalive != nil {
+		close(client.cancel_keepalive)
+		client.cancel_keepalive = nil
+	}
+	client.keepAliveRunning = false
+}
+
 type msgCipUnRegister struct {
 	Service                CIPService
 	CipPathSize            byte
-- 
2.43.0


From 91ec59465c0642c4ccac2891b1f4f3dca65be8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 15/46] fix: refused attribute reads and replies without a data
 item are errors

---
 connect.go     |  4 ++--
 getattr.go     |  9 ++++++---
 items.go       | 12 ++++++++++++
 listalltags.go |  2 +-
 listmembers.go |  4 ++--
 listsubtags.go |  2 +-
 write.go       |  4 ++--
 7 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/connect.go b/connect.go
index 7d2859d..8426711 100644
--- a/connect.go
+++ b/connect.go
@@ -600,7 +600,7 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 		return nil, fmt.Errorf("problem reading items header from forward open request. %w", err)
 	}
 
-	items, err := readItems(data)
+	items, err := readMessageItems(data)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items from forward open request. %w", err)
 	}
@@ -611,7 +611,7 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 		return nil, fmt.Errorf("error deserializing forward open response header. %w", err)
 	}
 
-	extended_status := make([]byte, respHeader.StatusLen*2)
+	extended_status := make([]byte, int(respHeader.StatusLen)*2)
 	if respHeader.StatusLen != 0 {
 		err = items[1].DeSerialize(&extended_status)
 		if err != nil {
diff --git a/getattr.go b/getattr.go
index bf1e9ac..19633ed 100644
--- a/getattr.go
+++ b/getattr.go
@@ -146,7 +146,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header.", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readMessageItems(data)
 	if err != nil {
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
@@ -157,6 +157,9 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		return nil, fmt.Errorf("couldn't read response header. %w", err)
 	}
+	if resphdr.Status != uint16(CIPStatus_OK) {
+		return nil, fmt.Errorf("response header has status 0x%X (%v)", resphdr.Status, CIPStatus(resphdr.Status))
+	}
 	//dat := make([]byte, hdr.Length-26)
 	//items[1].DeSerialize(&dat)
 	return &items[1], nil
@@ -291,7 +294,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 		client.Logger.Warn("Problem reading read result header.", "error", err)
 		return nil, err
 	}
-	items, err := readItems(data)
+	items, err := readMessageItems(data)
 	if err != nil {
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
@@ -456,7 +459,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	if err != nil {
 		return nil, fmt.Errorf("problpm reading read result header: %w", err)
 	}
-	items, err := readItems(data)
+	items, err := readMessageItems(data)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items: %w", err)
 	}
diff --git a/items.go b/items.go
index e628b49..33d1084 100644
--- a/items.go
+++ b/items.go
@@ -49,6 +49,18 @@ func readItems(r io.Reader) ([]CIPItem, error) {
 	return items, nil
 }
 
+// readMessageItems reads the items of a request or response, which always has an address item and a data item.
+func readMessageItems(r io.Reader) ([]CIPItem, error) {
+	items, err := readItems(r)
+	if err != nil {
+		return nil, err
+	}
+	if len(items) < 2 {
+		return nil, fmt.Errorf("expected an address and a data item but got %d items", len(items))
+	}
+	return items, nil
+}
+
 // The CIPItem is one of the core abstractions this library uses.
 //
 // When a response comes back from the controller it is structured in a CIPItem which can then
diff --git a/listalltags.go b/listalltags.go
index 9df6b54..e434714 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -199,7 +199,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		return fmt.Errorf("problem getting padding bytes. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readMessageItems(data)
 	if err != nil {
 		return fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/listmembers.go b/listmembers.go
index 914a954..5450f59 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -115,7 +115,7 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem reading padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readMessageItems(data)
 	if err != nil {
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
@@ -219,7 +219,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readMessageItems(data)
 	if err != nil {
 		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/listsubtags.go b/listsubtags.go
index a60d505..672dccf 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -72,7 +72,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		return nil, fmt.Errorf("problem reading padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readMessageItems(data)
 	if err != nil {
 		return new_kts, fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/write.go b/write.go
index 1fde379..655711d 100644
--- a/write.go
+++ b/write.go
@@ -195,7 +195,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readMessageItems(data)
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
@@ -319,7 +319,7 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readMessageItems(data)
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
-- 
2.43.0


From 5773cf746d9afe841f8de3d2de86969053a11a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 16/46] fix: fragmented reads end when the controller sends
 nothing or too much

---
 read.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index aa93d49..c9bac4a 100644
--- a/read.go
+++ b/read.go
@@ -477,7 +477,8 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 		if hdr2.Type == CIPTypeStruct {
 			return nil, fmt.Errorf("partial transfer read of %s: structured tag types are not yet supported in fragmented reads", tag)
 		}
-		merged, err := client.readFragmented(ioi, elements, items[1].Data[items[1].Pos:])
+		maxSize := int(elements) * max(hdr2.Type.Size(), 1)
+		merged, err := client.readFragmented(ioi, elements, items[1].Data[items[1].Pos:], maxSize)
 		if err != nil {
 			return nil, fmt.Errorf("partial transfer read of %s: %w", tag, err)
 		}
@@ -1319,8 +1320,9 @@ func (client *Client) ReadMap(m map[string]any) error {
 // controller returns CIPStatus_OK. initialData is the data portion that
 // arrived with the first (non-FragRead) response — the returned slice is the
 // full concatenation of every fragment's data section, ready to feed into the
-// existing per-type parsing path.
-func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData []byte) ([]byte, error) {
+// existing per-type parsing path. It fails when the fragments stop making
+// progress or add up to more than maxSize bytes.
+func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData []byte, maxSize int) ([]byte, error) {
 	accumulated := bytes.NewBuffer(append([]byte(nil), initialData...))
 	for {
 		offset := uint32(accumulated.Len())
@@ -1329,12 +1331,18 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 			return nil, err
 		}
 		accumulated.Write(fragData)
+		if accumulated.Len() > maxSize {
+			return nil, fmt.Errorf("FragRead at offset %d returned more data than the %d bytes requested", offset, maxSize)
+		}
 		if status == 0 {
 			return accumulated.Bytes(), nil
 		}
 		if status != byte(CIPStatus_PartialTransfer) {
 			return nil, fmt.Errorf("FragRead at offset %d returned status %v", offset, CIPStatus(status))
 		}
+		if len(fragData) == 0 {
+			return nil, fmt.Errorf("FragRead at offset %d returned no data", offset)
+		}
 	}
 }
 
-- 
2.43.0


From ff2b2d09565b15cd28dced2e6e95e205f83c5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 17/46] fix: requests of concurrent callers are numbered
 without a data race

---
 getattr.go     | 2 +-
 sendreceive.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/getattr.go b/getattr.go
index 19633ed..5662e51 100644
--- a/getattr.go
+++ b/getattr.go
@@ -256,7 +256,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(client.sequenceNumber.Add(1)),
+		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_GetAttributeList,
 		PathLength:    byte(path.Len() / 2),
 	}
diff --git a/sendreceive.go b/sendreceive.go
index cd6a274..2ccbefc 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -88,11 +88,12 @@ func (client *Client) sendData(b []byte) error {
 
 // sends one message and gets one response in a mutex-protected way.
 func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
+	client.mutex.Lock()
 	buffer, err := client.sendMsgBuild(cmd, msgs...)
 	if err != nil {
+		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
-	client.mutex.Lock()
 	if client.conn == nil {
 		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("not connected")
-- 
2.43.0


From 2ae23ac3a82f12805c777845946970d5d1dbaf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 18/46] fix: tag and program listings dropped or repeated
 entries across partial transfers and ignored refusals

---
 client.go          |  2 ++
 ioi.go             |  2 ++
 listallprograms.go | 61 ++++++++++++++++++++++++++++++---------
 listalltags.go     | 72 ++++++++++++++++++++++++++++++++--------------
 listsubtags.go     | 69 ++++++++++++++++++++++++++++----------------
 5 files changed, 147 insertions(+), 59 deletions(-)

diff --git a/client.go b/client.go
index 5b9ae84..0b3eab4 100644
--- a/client.go
+++ b/client.go
@@ -82,6 +82,8 @@ type Client struct {
 	KnownTypes     map[string]UDTDescriptor
 	KnownTypesByID map[uint32]UDTDescriptor
 	KnownPrograms  map[string]*KnownProgram
+	// protects the Known maps while the client lists and uses them.
+	known_lock sync.Mutex
 
 	// used for optimization.  v20 and before vs v21 and after have different
 	// tag reading functionality.
diff --git a/ioi.go b/ioi.go
index b4a2b66..c441b14 100644
--- a/ioi.go
+++ b/ioi.go
@@ -119,7 +119,9 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 	// on firmwares greater than 20, we can do some optimizations.
 	if client.firmware() > 20 {
+		client.known_lock.Lock()
 		tag_info, ok := client.KnownTags[tagpath]
+		client.known_lock.Unlock()
 		if ok {
 			// we'll assume the user knows what they're doing if they're dumping data into a struct.
 			/*
diff --git a/listallprograms.go b/listallprograms.go
index b29c645..8b48b57 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -1,18 +1,49 @@
 package gologix
 
 import (
+	"errors"
 	"fmt"
+	"math"
 	"strings"
 )
 
 func (client *Client) ListAllPrograms() error {
 	client.Logger.Debug("listing all programs")
 
+	results := make(map[string]*KnownProgram)
+
+	start_instance := uint32(0)
+	for {
+		last_instance, more, err := client.listProgramsFrom(start_instance, results)
+		if err != nil {
+			return err
+		}
+		if !more {
+			break
+		}
+		if last_instance < start_instance || last_instance == math.MaxUint32 {
+			return fmt.Errorf("program list makes no progress at instance %d", start_instance)
+		}
+		start_instance = last_instance + 1
+	}
+
+	client.known_lock.Lock()
+	client.KnownPrograms = results
+	client.known_lock.Unlock()
+
+	return nil
+}
+
+// listProgramsFrom reads one reply's worth of programs into results. It returns the last instance that
+// the controller reported and whether there are more after it.
+func (client *Client) listProgramsFrom(start_instance uint32, results map[string]*KnownProgram) (uint32, bool, error) {
+	last_instance := uint32(0)
+
 	// for generic messages we need to create the cip path ourselves.  The serialize function can be used to do this.
-	path, err := Serialize(CipObject_Programs, CIPInstance(0))
+	path, err := Serialize(CipObject_Programs, CIPInstance(start_instance))
 	if err != nil {
 		client.Logger.Warn("could not serialize path", "error", err)
-		return err
+		return 0, false, err
 	}
 
 	number_of_attr_to_receive := 1
@@ -20,31 +51,35 @@ func (client *Client) ListAllPrograms() error {
 	msg_data, err := Serialize(uint16(number_of_attr_to_receive), uint16(attr_28_program_name))
 	if err != nil {
 		client.Logger.Warn("could not serialize message data", "error", err)
-		return err
+		return 0, false, err
 	}
 
 	resp, err := client.GenericCIPMessage(CIPService_GetInstanceAttributeList, path.Bytes(), msg_data.Bytes())
-	if err != nil {
+	var cipErr CIPStatusError
+	partial := resp != nil && errors.As(err, &cipErr) && cipErr.Status == CIPStatus_PartialTransfer
+	if err != nil && !partial {
 		client.Logger.Warn("problem reading programs directly  Some controllers don't support this method. Use ListAllTags to attempt fallback.", "error", err)
-		return fmt.Errorf("problem reading programs: %w", err)
+		return 0, false, fmt.Errorf("problem reading programs: %w", err)
 	}
 
-	results := make(map[string]*KnownProgram)
-
-	for {
+	for len(resp.Rest()) > 0 {
 		var hdr listprograms_resp_header
 		err = resp.DeSerialize(&hdr)
 		if err != nil {
-			client.Logger.Debug("got last item")
-			break
+			client.Logger.Warn("could not read program header", "error", err)
+			return 0, false, fmt.Errorf("problem reading program header: %w", err)
+		}
+		if int64(hdr.NameLen) > int64(len(resp.Rest())) {
+			return 0, false, fmt.Errorf("program name of %d bytes is longer than the reply", hdr.NameLen)
 		}
+		last_instance = uint32(hdr.InstanceID)
 
 		// read the name
 		name := make([]byte, hdr.NameLen)
 		err = resp.DeSerialize(&name)
 		if err != nil {
 			client.Logger.Warn("could not read name", "error", err)
-			return err
+			return 0, false, err
 		}
 
 		// convert the name to a string
@@ -52,9 +87,7 @@ func (client *Client) ListAllPrograms() error {
 		results[namestr] = &KnownProgram{ID: CIPInstance(hdr.InstanceID), Name: namestr}
 	}
 
-	client.KnownPrograms = results
-
-	return nil
+	return last_instance, partial, nil
 }
 
 type listprograms_resp_header struct {
diff --git a/listalltags.go b/listalltags.go
index e434714..80947f5 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -127,11 +128,17 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 			var cipErr CIPStatusError
 			if errors.As(err, &cipErr) {
 				fallbackProgramNames = true
+				client.known_lock.Lock()
 				client.KnownPrograms = make(map[string]*KnownProgram)
+				client.known_lock.Unlock()
 			} else {
 				return fmt.Errorf("problem listing programs: %w", err)
 			}
 		}
+		// forget the tags that no longer exist.
+		client.known_lock.Lock()
+		client.KnownTags = make(map[string]KnownTag)
+		client.known_lock.Unlock()
 		for _, p := range client.KnownPrograms {
 			_, err := client.ListSubTags(p, 1)
 			if err != nil {
@@ -141,6 +148,26 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		}
 	}
 
+	for {
+		last_instance, more, err := client.listTagsFrom(start_instance, fallbackProgramNames)
+		if err != nil {
+			return err
+		}
+		if !more {
+			return nil
+		}
+		if last_instance < start_instance || last_instance == math.MaxUint32 {
+			return fmt.Errorf("tag list makes no progress at instance %d", start_instance)
+		}
+		start_instance = last_instance + 1
+	}
+}
+
+// listTagsFrom reads one reply's worth of tags. It returns the last instance that the controller reported
+// and whether there are more after it.
+func (client *Client) listTagsFrom(start_instance uint32, fallbackProgramNames bool) (uint32, bool, error) {
+	last_instance := uint32(0)
+
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
@@ -148,7 +175,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		CipObject_Symbol, CIPInstance(start_instance),
 	)
 	if err != nil {
-		return fmt.Errorf("couldn't build path. %w", err)
+		return 0, false, fmt.Errorf("couldn't build path. %w", err)
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
@@ -162,7 +189,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	// add path
 	err = reqItems[1].Serialize(path.Bytes())
 	if err != nil {
-		return fmt.Errorf("problem serializing path: %w", err)
+		return 0, false, fmt.Errorf("problem serializing path: %w", err)
 	}
 	// add service specific data
 	number_of_attr_to_receive := 3
@@ -176,16 +203,16 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		uint16(attr8_arrayDims),
 	})
 	if err != nil {
-		return fmt.Errorf("problem serializing item data: %w", err)
+		return 0, false, fmt.Errorf("problem serializing item data: %w", err)
 	}
 
 	itemData, err := serializeItems(reqItems)
 	if err != nil {
-		return fmt.Errorf("problem serializing items: %w", err)
+		return 0, false, fmt.Errorf("problem serializing items: %w", err)
 	}
 	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
 	if err != nil {
-		return err
+		return 0, false, err
 	}
 	_ = hdr
 	_ = data
@@ -196,12 +223,12 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	padding := make([]byte, 6)
 	_, err = data.Read(padding)
 	if err != nil {
-		return fmt.Errorf("problem getting padding bytes. %w", err)
+		return 0, false, fmt.Errorf("problem getting padding bytes. %w", err)
 	}
 
 	resp_items, err := readMessageItems(data)
 	if err != nil {
-		return fmt.Errorf("couldn't parse items. %w", err)
+		return 0, false, fmt.Errorf("couldn't parse items. %w", err)
 	}
 
 	// get ready to read tag info from item 1 data
@@ -210,7 +237,11 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	data_hdr := msgListInstanceHeader{}
 	err = binary.Read(data2, binary.LittleEndian, &data_hdr)
 	if err != nil {
-		return fmt.Errorf("problem reading list instance header. %w", err)
+		return 0, false, fmt.Errorf("problem reading list instance header. %w", err)
+	}
+	partial := data_hdr.Status == uint16(CIPStatus_PartialTransfer)
+	if data_hdr.Status != uint16(CIPStatus_OK) && !partial {
+		return 0, false, fmt.Errorf("problem listing tags: %w", CIPStatusError{Status: CIPStatus(data_hdr.Status)})
 	}
 
 	tag_hdr := new(msgtagResultDataHeader)
@@ -219,14 +250,14 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 
 		err = binary.Read(data2, binary.LittleEndian, tag_hdr)
 		if err != nil {
-			return fmt.Errorf("problem reading tag header. %w", err)
+			return 0, false, fmt.Errorf("problem reading tag header. %w", err)
 		}
-		start_instance = tag_hdr.InstanceID
+		last_instance = tag_hdr.InstanceID
 
 		tag_name := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &tag_name)
 		if err != nil {
-			return fmt.Errorf("problem reading tag name. %w", err)
+			return 0, false, fmt.Errorf("problem reading tag name. %w", err)
 		}
 		tag_string := string(tag_name)
 
@@ -237,7 +268,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		//}
 		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
 		if err != nil {
-			return fmt.Errorf("problem reading tag footer. %w", err)
+			return 0, false, fmt.Errorf("problem reading tag footer. %w", err)
 		}
 
 		kt := KnownTag{
@@ -277,10 +308,12 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 					continue
 				}
 				p := &KnownProgram{Name: progName}
+				client.known_lock.Lock()
 				client.KnownPrograms[strings.ToLower(p.Name)] = p
+				client.known_lock.Unlock()
 				_, err := client.ListSubTags(p, 1)
 				if err != nil {
-					return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
+					return 0, false, fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
 				}
 
 			}
@@ -305,22 +338,19 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 			} else {
 				kt.UDT = &u
 				client.Logger.Debug("Successful member read for %s", "name", kt.Name)
+				client.known_lock.Lock()
 				client.KnownTypes[u.Name] = u
+				client.known_lock.Unlock()
 			}
 		}
 
+		client.known_lock.Lock()
 		client.KnownTags[strings.ToLower(string(tag_name))] = kt
+		client.known_lock.Unlock()
 
 	}
 
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) { //} && start_instance < 200 {
-		err = client.ListAllTags(start_instance)
-		if err != nil {
-			return err
-		}
-	}
-
-	return nil
+	return last_instance, partial, nil
 }
 
 // per 1756-PM020H-EN-P page 43 there are some conditions in which we should discard the tags
diff --git a/listsubtags.go b/listsubtags.go
index 672dccf..d4f6665 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -14,14 +15,36 @@ import (
 // also see https://forums.mrclient.com/index.php?/topic/40626-reading-and-writing-io-tags-in-plc/
 func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
 
-	new_kts := make([]KnownTag, 0, 100)
-	client.Logger.Debug("readall", "start id", start_instance)
-
 	// have to start at 1.
 	if start_instance == 0 {
 		start_instance = 1
 	}
 
+	new_kts := make([]KnownTag, 0, 100)
+	for {
+		kts, last_instance, more, err := client.listSubTagsFrom(Program, start_instance)
+		new_kts = append(new_kts, kts...)
+		if err != nil {
+			return new_kts, err
+		}
+		if !more {
+			return new_kts, nil
+		}
+		if last_instance < start_instance || last_instance == math.MaxUint32 {
+			return new_kts, fmt.Errorf("tag list of program %s makes no progress at instance %d", Program.Name, start_instance)
+		}
+		start_instance = last_instance + 1
+	}
+}
+
+// listSubTagsFrom reads one reply's worth of the tags of a program. It returns the tags, the last instance that
+// the controller reported and whether there are more after it.
+func (client *Client) listSubTagsFrom(Program *KnownProgram, start_instance uint32) ([]KnownTag, uint32, bool, error) {
+
+	new_kts := make([]KnownTag, 0, 100)
+	last_instance := uint32(0)
+	client.Logger.Debug("readall", "start id", start_instance)
+
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -31,7 +54,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		CipObject_Symbol, CIPInstance(start_instance),
 	)
 	if err != nil {
-		return new_kts, fmt.Errorf("couldn't build path. %w", err)
+		return new_kts, 0, false, fmt.Errorf("couldn't build path. %w", err)
 	}
 
 	readmsg := msgCIPConnectedServiceReq{
@@ -43,7 +66,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
 	err = reqitems[1].Serialize(p.Bytes())
 	if err != nil {
-		return new_kts, fmt.Errorf("problem serializing path: %w", err)
+		return new_kts, 0, false, fmt.Errorf("problem serializing path: %w", err)
 	}
 	number_of_attr_to_receive := 3
 	attr1_symbol_name := 1
@@ -51,16 +74,16 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	attr8_arraydims := 8
 	err = reqitems[1].Serialize([4]uint16{uint16(number_of_attr_to_receive), uint16(attr1_symbol_name), uint16(attr2_symbol_type), uint16(attr8_arraydims)})
 	if err != nil {
-		return new_kts, fmt.Errorf("problem serializing item attribute list: %w", err)
+		return new_kts, 0, false, fmt.Errorf("problem serializing item attribute list: %w", err)
 	}
 
 	itemdata, err := serializeItems(reqitems)
 	if err != nil {
-		return nil, fmt.Errorf("problem serializing items: %w", err)
+		return nil, 0, false, fmt.Errorf("problem serializing items: %w", err)
 	}
 	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
 	if err != nil {
-		return new_kts, err
+		return new_kts, 0, false, err
 	}
 	_ = hdr
 	_ = data
@@ -69,12 +92,12 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	padding := make([]byte, 6)
 	_, err = data.Read(padding)
 	if err != nil {
-		return nil, fmt.Errorf("problem reading padding. %w", err)
+		return nil, 0, false, fmt.Errorf("problem reading padding. %w", err)
 	}
 
 	resp_items, err := readMessageItems(data)
 	if err != nil {
-		return new_kts, fmt.Errorf("couldn't parse items. %w", err)
+		return new_kts, 0, false, fmt.Errorf("couldn't parse items. %w", err)
 	}
 
 	// get ready to read tag info from item 1 data
@@ -83,7 +106,11 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	data_hdr := msgListInstanceHeader{}
 	err = binary.Read(data2, binary.LittleEndian, &data_hdr)
 	if err != nil {
-		return nil, fmt.Errorf("problem reading tag header. %w", err)
+		return nil, 0, false, fmt.Errorf("problem reading tag header. %w", err)
+	}
+	partial := data_hdr.Status == uint16(CIPStatus_PartialTransfer)
+	if data_hdr.Status != uint16(CIPStatus_OK) && !partial {
+		return nil, 0, false, fmt.Errorf("problem listing tags of program %s: %w", Program.Name, CIPStatusError{Status: CIPStatus(data_hdr.Status)})
 	}
 
 	tag_hdr := new(msgtagResultDataHeader)
@@ -92,12 +119,13 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 
 		err = binary.Read(data2, binary.LittleEndian, tag_hdr)
 		if err != nil {
-			return nil, fmt.Errorf("problem reading tag header. %w", err)
+			return nil, 0, false, fmt.Errorf("problem reading tag header. %w", err)
 		}
+		last_instance = tag_hdr.InstanceID
 		newtag_bytes := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &newtag_bytes)
 		if err != nil {
-			return nil, fmt.Errorf("problem reading tag header. %w", err)
+			return nil, 0, false, fmt.Errorf("problem reading tag header. %w", err)
 		}
 		newtag_name := fmt.Sprintf("program:%s.%s", Program.Name, string(newtag_bytes))
 
@@ -108,7 +136,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		//}
 		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
 		if err != nil {
-			return nil, fmt.Errorf("problem reading tag footer. %w", err)
+			return nil, 0, false, fmt.Errorf("problem reading tag footer. %w", err)
 		}
 
 		kt := KnownTag{
@@ -135,19 +163,12 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		if !isValidTag(string(newtag_bytes), *tag_ftr) {
 			continue
 		}
+		client.known_lock.Lock()
 		client.KnownTags[strings.ToLower(newtag_name)] = kt
+		client.known_lock.Unlock()
 		new_kts = append(new_kts, kt)
 
-		start_instance = tag_hdr.InstanceID
-
-	}
-
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
-		_, err = client.ListSubTags(Program, start_instance)
-		if err != nil {
-			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
-		}
 	}
 
-	return new_kts, nil
+	return new_kts, last_instance, partial, nil
 }
-- 
2.43.0


From b63dd88d1301625e8df80db024508c293f9bbead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 19/46] fix: template reads ignored refusals and partial
 transfers and dropped or cut member names

---
 listmembers.go | 126 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 94 insertions(+), 32 deletions(-)

diff --git a/listmembers.go b/listmembers.go
index 5450f59..3cc4025 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -3,7 +3,9 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -124,10 +126,18 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	data2 := bytes.NewBuffer(resp_items[1].Data)
 
 	result := msgGetTemplateAttrListResponse{}
+	if d := resp_items[1].Data; len(d) >= 6 && d[4] != byte(CIPStatus_OK) {
+		return result, CIPStatusError{Status: CIPStatus(d[4])}
+	}
 	err = binary.Read(data2, binary.LittleEndian, &result)
 	if err != nil {
 		return result, fmt.Errorf("problem reading result. %w", err)
 	}
+	for _, status := range []uint16{result.SizeWords_Status, result.SizeBytes_Status, result.MemberCount_Status, result.Handle_Status} {
+		if status != uint16(CIPStatus_OK) {
+			return result, CIPStatusError{Status: CIPStatus(status)}
+		}
+	}
 
 	return result, nil
 }
@@ -148,23 +158,9 @@ func (m msgMemberInfo) CIPType() CIPType {
 	return CIPType(m.Type & 0x00FF)
 }
 
-// Per my testing, this only works after a certain firmware version.  I don't know which one
-// exactly, but V32 it works and V20 it does not.  I suspect v24 or v28 since they were pretty substantial
-// changes, but v21 could also be the version since that is the swap from rslogix to studio
-func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
-	client.Logger.Debug("list members", "instance", str_instance)
-
-	d, ok := client.KnownTypesByID[str_instance]
-	if ok {
-		return d, nil
-	}
-
-	template_info, err := client.GetTemplateInstanceAttr(str_instance)
-
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't get template info. %w", err)
-	}
-
+// readTemplate reads a part of the definition of a template. It also returns whether the controller has more of the
+// requested part to send.
+func (client *Client) readTemplate(str_instance uint32, start_offset uint32, read_length uint16) ([]byte, bool, error) {
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -174,7 +170,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		//cipObject_Symbol, cipInstance(start_instance),
 	)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't build path. %w", err)
+		return nil, false, fmt.Errorf("couldn't build path. %w", err)
 	}
 
 	readmsg := msgCIPConnectedServiceReq{
@@ -186,26 +182,24 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
 	err = reqitems[1].Serialize(p.Bytes())
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing path: %w", err)
+		return nil, false, fmt.Errorf("problem serializing path: %w", err)
 	}
-	start_offset := uint32(0)
-	read_length := uint16(template_info.SizeWords*4 - 23)
 	err = reqitems[1].Serialize(start_offset)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item start offset: %w", err)
+		return nil, false, fmt.Errorf("problem serializing item start offset: %w", err)
 	}
 	err = reqitems[1].Serialize(read_length)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item read length: %w", err)
+		return nil, false, fmt.Errorf("problem serializing item read length: %w", err)
 	}
 
 	itemdata, err := serializeItems(reqitems)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item data: %w", err)
+		return nil, false, fmt.Errorf("problem serializing item data: %w", err)
 	}
 	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
 	if err != nil {
-		return UDTDescriptor{}, err
+		return nil, false, err
 	}
 	_ = hdr
 	_ = data
@@ -216,12 +210,12 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	padding := make([]byte, 6)
 	_, err = data.Read(padding)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read padding. %w", err)
+		return nil, false, fmt.Errorf("couldn't read padding. %w", err)
 	}
 
 	resp_items, err := readMessageItems(data)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
+		return nil, false, fmt.Errorf("couldn't parse items. %w", err)
 	}
 
 	// get ready to read tag info from item 1 data
@@ -230,9 +224,72 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	mihdr := msgMemberInfoHdr{}
 	err = binary.Read(data2, binary.LittleEndian, &mihdr)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read member info header. %w", err)
+		return nil, false, fmt.Errorf("couldn't read member info header. %w", err)
+	}
+	if mihdr.Status == uint16(CIPStatus_PartialTransfer) {
+		return data2.Bytes(), true, nil
+	}
+	if mihdr.Status != uint16(CIPStatus_OK) {
+		return nil, false, fmt.Errorf("couldn't read template %d: %w", str_instance, CIPStatusError{Status: CIPStatus(mihdr.Status)})
+	}
+	return data2.Bytes(), false, nil
+}
+
+// Per my testing, this only works after a certain firmware version.  I don't know which one
+// exactly, but V32 it works and V20 it does not.  I suspect v24 or v28 since they were pretty substantial
+// changes, but v21 could also be the version since that is the swap from rslogix to studio
+func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
+	return client.listMembers(str_instance, nil)
+}
+
+// listMembers is ListMembers for a structure that is a member of the structures in parents.
+func (client *Client) listMembers(str_instance uint32, parents []uint32) (UDTDescriptor, error) {
+	client.Logger.Debug("list members", "instance", str_instance)
+
+	for _, parent := range parents {
+		if parent == str_instance {
+			return UDTDescriptor{}, fmt.Errorf("template %d contains itself", str_instance)
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], str_instance)
+
+	client.known_lock.Lock()
+	d, ok := client.KnownTypesByID[str_instance]
+	client.known_lock.Unlock()
+	if ok {
+		return d, nil
+	}
+
+	template_info, err := client.GetTemplateInstanceAttr(str_instance)
+
+	if err != nil {
+		return UDTDescriptor{}, fmt.Errorf("couldn't get template info. %w", err)
 	}
 
+	// the size of the definition, see 1756-PM020H-EN-P
+	const definitionOverhead = 23
+	read_length := int64(template_info.SizeWords)*4 - definitionOverhead
+	if read_length < int64(binary.Size(msgMemberInfo{}))*int64(template_info.MemberCount) {
+		return UDTDescriptor{}, fmt.Errorf("template %d of %d words cannot have %d members", str_instance, template_info.SizeWords, template_info.MemberCount)
+	}
+	data2 := &bytes.Buffer{}
+	for {
+		length := min(read_length-int64(data2.Len()), math.MaxUint16)
+		part, more, err := client.readTemplate(str_instance, uint32(data2.Len()), uint16(length))
+		if err != nil {
+			return UDTDescriptor{}, err
+		}
+		data2.Write(part)
+		if int64(data2.Len()) >= read_length || (!more && length < math.MaxUint16) {
+			break
+		}
+		if len(part) == 0 {
+			return UDTDescriptor{}, fmt.Errorf("reading template %d makes no progress at offset %d", str_instance, data2.Len())
+		}
+	}
+
+	received := int64(data2.Len())
+
 	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
 	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
 	if err != nil {
@@ -249,35 +306,40 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read struct name. %w", err)
 	}
 
+	struct_name = strings.TrimSuffix(struct_name, "\x00")
 	if strings.Contains(struct_name, ";") {
 		struct_name = strings.Split(struct_name, ";")[0]
 	}
-	struct_name = struct_name[:len(struct_name)-1]
 	descriptor.Name = struct_name
 
 	for i := 0; i < int(template_info.MemberCount); i++ {
 
 		fieldname, err := data2.ReadString(0x00)
-		if err != nil && fieldname == "" {
+		if err != nil && (fieldname == "" || received < read_length || i < int(template_info.MemberCount)-1) {
 			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
 		}
-		fieldname = fieldname[:len(fieldname)-1]
+		fieldname = strings.TrimSuffix(fieldname, "\x00")
 
 		descriptor.Members[i].Name = fieldname
 		descriptor.Members[i].Info = memberInfos[i]
 		id := descriptor.Members[i].Template_ID()
 		if id != 0 {
 			// this is a UDT
-			d2, err := client.ListMembers(uint32(descriptor.Members[i].Template_ID()))
+			d2, err := client.listMembers(uint32(descriptor.Members[i].Template_ID()), parents)
+			var cipErr CIPStatusError
 			if err == nil {
 				descriptor.Members[i].UDT = &d2
+			} else if !errors.As(err, &cipErr) {
+				return UDTDescriptor{}, fmt.Errorf("problem with type of %s.%s: %w", struct_name, fieldname, err)
 			} else {
 				client.Logger.Debug("couldn't get udt", "name", fieldname, "type", descriptor.Members[i].Info.Type)
 			}
 		}
 	}
 
+	client.known_lock.Lock()
 	client.KnownTypesByID[str_instance] = descriptor
+	client.known_lock.Unlock()
 	return descriptor, nil
 }
 
-- 
2.43.0


From b5ef89b4ca1c2619a46cc5a052c52754ee9b5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 20/46] fix: a failed exchange left its stream usable for other
 callers, encapsulation errors passed as replies, connection numbers raced

---
 connect.go     |  6 +++++-
 getattr.go     |  6 +++---
 listalltags.go |  2 +-
 listmembers.go |  4 ++--
 listsubtags.go |  2 +-
 read.go        |  6 +++---
 sendreceive.go | 24 ++++++++++++++++++++++++
 udt_write.go   |  2 +-
 write.go       |  4 ++--
 9 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/connect.go b/connect.go
index 8426711..e9cd5f0 100644
--- a/connect.go
+++ b/connect.go
@@ -197,8 +197,10 @@ func (client *Client) registerSession() error {
 	if header.Status != 0 {
 		return fmt.Errorf("controller refused to register a session. status: 0x%X", header.Status)
 	}
+	client.mutex.Lock()
 	client.SessionHandle = header.SessionHandle
-	client.Logger.Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
+	client.mutex.Unlock()
+	client.Logger.Info("Session connected", slog.Any("sessionHandle", header.SessionHandle))
 	return nil
 }
 
@@ -536,7 +538,9 @@ func (client *Client) forwardOpen(forwardOpenMsg CIPItem) error {
 		return fmt.Errorf("error deserializing forward open response content. %w", err)
 	}
 
+	client.mutex.Lock()
 	client.OTNetworkConnectionID = respContent.OtNetworkConnectionId
+	client.mutex.Unlock()
 
 	client.Logger.Info(
 		"successfully opened connection",
diff --git a/getattr.go b/getattr.go
index 5662e51..7952e98 100644
--- a/getattr.go
+++ b/getattr.go
@@ -106,7 +106,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionAddressItem()
 	pl := class.Len() + instance.Len() + attr.Len()
 	pl = pl / 2
 
@@ -248,7 +248,7 @@ func (client *Client) GetControllerPropList() (msgGetControllerPropList, error)
 // struct as above with the proper types for the AttrX_Value instead of []byte and do an item.Serialize(&InstanceOfMyType)
 func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ...CIPAttribute) (*CIPItem, error) {
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = client.connectionAddressItem()
 
 	path, err := Serialize(class, instance)
 	if err != nil {
@@ -425,7 +425,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionAddressItem()
 
 	readmsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
diff --git a/listalltags.go b/listalltags.go
index 80947f5..fd8e837 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -169,7 +169,7 @@ func (client *Client) listTagsFrom(start_instance uint32, fallbackProgramNames b
 	last_instance := uint32(0)
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = client.connectionAddressItem()
 
 	path, err := Serialize(
 		CipObject_Symbol, CIPInstance(start_instance),
diff --git a/listmembers.go b/listmembers.go
index 3cc4025..5ebd635 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -54,7 +54,7 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionAddressItem()
 
 	p, err := Serialize(
 		CipObject_Template, CIPInstance(str_instance),
@@ -163,7 +163,7 @@ func (m msgMemberInfo) CIPType() CIPType {
 func (client *Client) readTemplate(str_instance uint32, start_offset uint32, read_length uint16) ([]byte, bool, error) {
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionAddressItem()
 
 	p, err := Serialize(
 		CipObject_Template, CIPInstance(str_instance),
diff --git a/listsubtags.go b/listsubtags.go
index d4f6665..706f9af 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -47,7 +47,7 @@ func (client *Client) listSubTagsFrom(Program *KnownProgram, start_instance uint
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionAddressItem()
 
 	p, err := Serialize(
 		Program.Bytes(),
diff --git a/read.go b/read.go
index c9bac4a..66ce381 100644
--- a/read.go
+++ b/read.go
@@ -419,7 +419,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	}
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = client.connectionAddressItem()
 
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
@@ -874,7 +874,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = client.connectionAddressItem()
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
 		Sequence:     uint16(sequencer()),
@@ -1352,7 +1352,7 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 // and any transport-level error.
 func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset uint32) ([]byte, byte, error) {
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = client.connectionAddressItem()
 
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
diff --git a/sendreceive.go b/sendreceive.go
index 2ccbefc..b52fe4b 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -86,6 +86,14 @@ func (client *Client) sendData(b []byte) error {
 
 }
 
+// connectionAddressItem is the item that says which connection a request belongs to.
+func (client *Client) connectionAddressItem() CIPItem {
+	client.mutex.Lock()
+	id := client.OTNetworkConnectionID
+	client.mutex.Unlock()
+	return newItem(cipItem_ConnectionAddress, &id)
+}
+
 // sends one message and gets one response in a mutex-protected way.
 func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
 	client.mutex.Lock()
@@ -101,6 +109,7 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 
 	err = client.sendData(buffer)
 	if err != nil {
+		client.dropConn()
 		client.mutex.Unlock()
 		err2 := client.Disconnect()
 		if err2 != nil {
@@ -110,6 +119,9 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	}
 
 	hdr, buf, err := client.recvData()
+	if err != nil {
+		client.dropConn()
+	}
 	client.mutex.Unlock()
 	if err != nil {
 		err2 := client.Disconnect()
@@ -118,9 +130,21 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		}
 		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w", err)
 	}
+	if hdr.Status != 0 {
+		return hdr, buf, fmt.Errorf("request was refused with encapsulation status 0x%X", hdr.Status)
+	}
 	return hdr, buf, nil
 }
 
+// dropConn closes the connection after an exchange failed part way. The answers on it no longer match the requests,
+// so nobody may use it any more. The mutex has to be held.
+func (client *Client) dropConn() {
+	if client.conn != nil {
+		client.conn.Close()
+		client.conn = nil
+	}
+}
+
 // recv_data reads the header and then the number of words it specifies.
 func (client *Client) recvData() (eipHeader, *bytes.Buffer, error) {
 
diff --git a/udt_write.go b/udt_write.go
index 34f6a92..90073dd 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -247,7 +247,7 @@ func (client *Client) sendWriteRequests(requests [][]byte) error {
 	qty := len(requests)
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionAddressItem()
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
 		Sequence:     uint16(sequencer()),
diff --git a/write.go b/write.go
index 655711d..30cdc6a 100644
--- a/write.go
+++ b/write.go
@@ -144,7 +144,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionAddressItem()
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
 	err = reqitems[1].Serialize(ioi_header)
 	if err != nil {
@@ -281,7 +281,7 @@ func (client *Client) write_single(tag string, value any) error {
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionAddressItem()
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
 	err = reqitems[1].Serialize(ioi_header)
 	if err != nil {
-- 
2.43.0


From 6d759ce3b4029013eb083c06b8fce5ad4f9fb488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 21/46] fix: generic messages with a path that is not a whole
 number of words or too long were sent malformed

---
 getattr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/getattr.go b/getattr.go
index 7952e98..2ef548a 100644
--- a/getattr.go
+++ b/getattr.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 )
 
 type cipAttributeResponseHdr struct {
@@ -422,6 +423,9 @@ func (e CIPStatusError) Error() string {
 // Note: This function is intended for advanced users who need direct CIP protocol
 // access. For standard tag operations, use Read(), Write(), and related functions.
 func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byte) (*CIPItem, error) {
+	if len(path)%2 != 0 || len(path)/2 > math.MaxUint8 {
+		return nil, fmt.Errorf("path of %d bytes is not a whole number of at most %d words", len(path), math.MaxUint8)
+	}
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-- 
2.43.0


From 8a3c17161b8cb9ef57365daf6874bf3ab06b22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 22/46] fix: data table buffers lost track of their tags after
 a removal, and placeholders were replaced inside arguments

---
 datatable.go | 194 ++++++++++++++++++++++++++++++++++++++-------------
 taggroup.go  |  24 ++-----
 2 files changed, 152 insertions(+), 66 deletions(-)

diff --git a/datatable.go b/datatable.go
index 06bbbe5..314c39b 100644
--- a/datatable.go
+++ b/datatable.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strings"
@@ -43,6 +44,8 @@ type DataTableBuffer struct {
 	// Value: the expanded individual tag names (e.g. ["EXAMPLE[1,0]", ..., "EXAMPLE[1,4]"])
 	expansions map[string][]string
 
+	assigned uint16 // number of indices the PLC has handed out; they are not reused when a tag is removed
+
 	created bool // true after successful Create
 	synched bool // internal flag to track if tags have been added on this side but not yet sent to PLC via AddTag/AddTags
 }
@@ -95,7 +98,9 @@ func dataTableTypeSize(t CIPType) (uint16, error) {
 // Falls back to dataTableTypeSize() if the tag is not in KnownTags or has no UDT.
 func (buf *DataTableBuffer) resolveTypeSize(tagName string, cipType CIPType) (uint16, error) {
 	if cipType == CIPTypeSTRING || cipType == CIPTypeStruct {
+		buf.client.known_lock.Lock()
 		kt, ok := buf.client.KnownTags[strings.ToLower(tagName)]
+		buf.client.known_lock.Unlock()
 		if ok && kt.UDT != nil && kt.UDT.Info.SizeBytes > 0 {
 			return uint16(kt.UDT.Info.SizeBytes), nil
 		}
@@ -117,7 +122,8 @@ func decodeDataTableValue(cipType CIPType, raw []byte) (any, error) {
 		if strLen > uint32(len(raw)-4) {
 			strLen = uint32(len(raw) - 4)
 		}
-		if strLen > 82 {
+		if len(raw) == 88 && strLen > 82 {
+			// the standard STRING ends in two bytes of padding.
 			strLen = 82
 		}
 		return string(raw[4 : 4+strLen]), nil
@@ -203,6 +209,10 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 		return 0, fmt.Errorf("could not add tag to datatable buffer: %w", err)
 	}
 
+	if len(entries) == 0 || len(entries) > math.MaxUint8 {
+		return 0, fmt.Errorf("cannot add %d tags to datatable buffer in one call", len(entries))
+	}
+
 	path := dataTablePath(instanceID)
 
 	// Estimate capacity: 5 header + per-tag (2 typeSize + 1 ioiLen + IOI bytes)
@@ -329,12 +339,22 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 	if !buf.created {
 		return fmt.Errorf("datatable buffer not created")
 	}
+	ptr := reflect.ValueOf(data)
+	if ptr.Kind() != reflect.Pointer || ptr.IsNil() {
+		return fmt.Errorf("tag %q needs a pointer to store its value, got %T", tagName, data)
+	}
 	cipType, _ := GoVarToCIPType(data)
+	if cipType == CIPTypeStruct {
+		return fmt.Errorf("tag %q cannot be stored in a %T", tagName, data)
+	}
 
 	ioi, err := buf.client.newIOI(tagName, cipType)
 	if err != nil {
 		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
 	}
+	if ioi.BitAccess {
+		return fmt.Errorf("tag %q is a bit, which has no slot of its own in a datatable buffer", tagName)
+	}
 
 	typeSize, err := buf.resolveTypeSize(tagName, cipType)
 	if err != nil {
@@ -347,7 +367,7 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
+		index:        buf.nextIndex(),
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
@@ -357,6 +377,18 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 	return nil
 }
 
+// nextIndex is the index of the next tag that is added to the buffer: those of the tags
+// the PLC has not been told about yet follow the last one it assigned.
+func (buf *DataTableBuffer) nextIndex() uint16 {
+	index := buf.assigned + 1
+	for i := range buf.tags {
+		if !buf.tags[i].synched {
+			index++
+		}
+	}
+	return index
+}
+
 // AddTag adds a single tag to the datatable buffer by its symbolic name and CIP type.
 // The tag is sent to the PLC via service 0x4E and the PLC-assigned batch index is recorded.
 //
@@ -371,6 +403,9 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 	if err != nil {
 		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
 	}
+	if ioi.BitAccess {
+		return fmt.Errorf("tag %q is a bit, which has no slot of its own in a datatable buffer", tagName)
+	}
 
 	typeSize, err := buf.resolveTypeSize(tagName, cipType)
 	if err != nil {
@@ -383,7 +418,7 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
+		index:        buf.nextIndex(),
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
@@ -395,22 +430,47 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 // Run through the tags in the buffer that have not yet been sent to the PLC and send them in a batch via DataTableAddTags.
 // marking them as synched if successful. This is called automatically by ReadAll if there are unsynched tags, but can be
 // called manually if you want to control when the tags are sent to the PLC (e.g. to group multiple AddTag calls into one batch).
+//
+// One call adds as many tags as fit in its count byte and in a packet of the connection.
 func (buf *DataTableBuffer) SyncTags() error {
+	// 2 sequence count, 2 service and path length, 6 path, 5 header
+	const overhead = 15
+
 	entries := make([]addTagEntry, 0)
+	size := overhead
+	flush := func() error {
+		if len(entries) == 0 {
+			return nil
+		}
+		batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
+		if err != nil {
+			return fmt.Errorf("could not add tags to buffer: %w", err)
+		}
+		for _, entry := range entries {
+			buf.tags[entry.index].batchID = batchID
+			buf.tags[entry.index].synched = true
+		}
+		buf.assigned += uint16(len(entries))
+		entries = entries[:0]
+		size = overhead
+		return nil
+	}
+
 	for i := range buf.tags {
 		if buf.tags[i].synched {
 			continue
 		}
+		entrySize := 3 + len(buf.tags[i].ioi)
+		if len(entries) == math.MaxUint8 || size+entrySize > int(buf.client.ConnectionSize) {
+			if err := flush(); err != nil {
+				return err
+			}
+		}
 		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi, i})
+		size += entrySize
 	}
-
-	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
-	if err != nil {
-		return fmt.Errorf("could not add tags to buffer: %w", err)
-	}
-	for _, entry := range entries {
-		buf.tags[entry.index].batchID = batchID
-		buf.tags[entry.index].synched = true
+	if err := flush(); err != nil {
+		return err
 	}
 	buf.synched = true
 	return nil
@@ -441,6 +501,9 @@ func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
 		if err != nil {
 			return fmt.Errorf("could not create IOI for tag %q: %w", name, err)
 		}
+		if ioi.BitAccess {
+			return fmt.Errorf("tag %q is a bit, which has no slot of its own in a datatable buffer", name)
+		}
 		typeSize, err := buf.resolveTypeSize(name, cipType)
 		if err != nil {
 			return fmt.Errorf("tag %q: %w", name, err)
@@ -453,17 +516,8 @@ func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
 		})
 	}
 
-	// Build entries for a single DataTableAddTags call.
-	entries := make([]addTagEntry, len(prepared))
-	for i, t := range prepared {
-		entries[i] = addTagEntry{
-			dataTypeSize: t.typeSize,
-			ioi:          t.ioi,
-		}
-	}
-
 	// Assign sequential indices and record the batch ID for read parsing.
-	baseIndex := uint16(len(buf.tags) + 1)
+	baseIndex := buf.nextIndex()
 	for i, t := range prepared {
 		buf.tags = append(buf.tags, DataTableBufferTag{
 			Name:         t.name,
@@ -663,12 +717,36 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 		return fmt.Errorf("tag %q not found in buffer", tagName)
 	}
 
-	err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
-	if err != nil {
-		return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+	if buf.tags[idx].synched {
+		err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
+		if err != nil {
+			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+		}
+	} else {
+		// The PLC does not know this tag yet, the ones after it move up.
+		for i := idx + 1; i < len(buf.tags); i++ {
+			if !buf.tags[i].synched {
+				buf.tags[i].index--
+			}
+		}
 	}
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
+	for i := range buf.tags {
+		if buf.tags[i].Name == tagName {
+			return nil
+		}
+	}
+
+	// What is left of an array this tag was an element of can no longer be read as a whole.
+	for baseName, expanded := range buf.expansions {
+		for _, name := range expanded {
+			if name == tagName {
+				delete(buf.expansions, baseName)
+				break
+			}
+		}
+	}
 	return nil
 }
 
@@ -714,23 +792,31 @@ func (buf *DataTableBuffer) AddTagGroup(group *TagGroup, args ...any) error {
 
 	// Collect all resolved tag names with their types for batched AddTags.
 	tagMap := make(map[string]CIPType)
+	expansions := make(map[string][]string)
 
 	for _, def := range group.defs {
 		resolvedName := formatName(def.Name, args...)
 
 		if def.Elements > 1 {
 			expanded := expandArrayTag(resolvedName, def.Elements)
-			buf.expansions[resolvedName] = expanded
+			expansions[resolvedName] = expanded
 			for _, name := range expanded {
 				tagMap[name] = def.Type
 			}
 		} else {
-			buf.expansions[resolvedName] = []string{resolvedName}
+			expansions[resolvedName] = []string{resolvedName}
 			tagMap[resolvedName] = def.Type
 		}
 	}
 
-	return buf.AddTags(tagMap)
+	err := buf.AddTags(tagMap)
+	if err != nil {
+		return err
+	}
+	for name, expanded := range expansions {
+		buf.expansions[name] = expanded
+	}
+	return nil
 }
 
 // ---------------------------------------------------------------------------
@@ -763,18 +849,16 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	}
 
 	// Reflect over struct fields
-	T := reflect.TypeOf(str)
-	if T.Kind() == reflect.Ptr {
-		T = T.Elem()
-	}
 	v := reflect.ValueOf(str)
-	if v.Kind() == reflect.Ptr {
-		v = v.Elem()
+	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("need a pointer to a struct to add its tags, got %T", str)
 	}
+	v = v.Elem()
 
-	vf := reflect.VisibleFields(T)
+	vf := reflect.VisibleFields(v.Type())
 	tagMap := make(map[string]CIPType)
 	varPtrs := make(map[string]any)
+	expansions := make(map[string][]string)
 
 	for i := range vf {
 		field := vf[i]
@@ -785,35 +869,47 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		fieldVal := v.Field(i)
+		fieldVal, err := v.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("cannot read %s into field %s: %w", tagPath, field.Name, err)
+		}
+		if !fieldVal.CanSet() {
+			return fmt.Errorf("cannot read %s into unexported field %s", tagPath, field.Name)
+		}
+		if fieldVal.Kind() == reflect.Array {
+			fieldVal = fieldVal.Slice(0, fieldVal.Len())
+		}
 		cipType, elements := GoVarToCIPType(fieldVal.Interface())
+		if cipType == CIPTypeStruct || elements < 1 {
+			return fmt.Errorf("cannot read %s into field %s of type %v", tagPath, field.Name, field.Type)
+		}
 
 		// Handle slices/arrays (multi-element tags)
-		if elements > 1 {
-			expanded := expandArrayTag(tagPath, elements)
-			buf.expansions[tagPath] = expanded
-			for idx, name := range expanded {
-				tagMap[name] = cipType
+		expanded := expandArrayTag(tagPath, elements)
+		expansions[tagPath] = expanded
+		for idx, name := range expanded {
+			tagMap[name] = cipType
+			if fieldVal.Kind() == reflect.Slice {
 				// For slices, set Var to the element pointer
-				if fieldVal.Kind() == reflect.Slice && fieldVal.Len() > idx {
-					varPtrs[name] = fieldVal.Index(idx).Addr().Interface()
-				}
+				varPtrs[name] = fieldVal.Index(idx).Addr().Interface()
+			} else {
+				varPtrs[name] = fieldVal.Addr().Interface()
 			}
-		} else {
-			buf.expansions[tagPath] = []string{tagPath}
-			tagMap[tagPath] = cipType
-			varPtrs[tagPath] = fieldVal.Addr().Interface()
 		}
 	}
 
 	// Add tags to buffer
+	added := len(buf.tags)
 	err := buf.AddTags(tagMap)
 	if err != nil {
 		return err
 	}
+	for name, expanded := range expansions {
+		buf.expansions[name] = expanded
+	}
 
-	// Set Var pointers for each tag
-	for i := range buf.tags {
+	// Set Var pointers for each new tag, structs added before keep theirs
+	for i := added; i < len(buf.tags); i++ {
 		if ptr, ok := varPtrs[buf.tags[i].Name]; ok {
 			buf.tags[i].Var = ptr
 		}
diff --git a/taggroup.go b/taggroup.go
index de7644d..f001761 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -43,12 +43,11 @@ func (g *TagGroup) Defs() []TagDef {
 // formatName replaces {0}, {1}, ... placeholders in a tag name template
 // with the provided arguments.
 func formatName(template string, args ...any) string {
-	s := template
+	pairs := make([]string, 0, 2*len(args))
 	for i, arg := range args {
-		placeholder := fmt.Sprintf("{%d}", i)
-		s = strings.ReplaceAll(s, placeholder, fmt.Sprintf("%v", arg))
+		pairs = append(pairs, fmt.Sprintf("{%d}", i), fmt.Sprintf("%v", arg))
 	}
-	return s
+	return strings.NewReplacer(pairs...).Replace(template)
 }
 
 // zeroValueForTagDef returns a zero-valued Go variable matching the TagDef's
@@ -65,7 +64,7 @@ func zeroValueForTagDef(def TagDef) any {
 			return make([]byte, def.Elements)
 		case CIPTypeINT:
 			return make([]int16, def.Elements)
-		case CIPTypeUINT:
+		case CIPTypeUINT, CIPTypeWORD:
 			return make([]uint16, def.Elements)
 		case CIPTypeDINT:
 			return make([]int32, def.Elements)
@@ -124,22 +123,13 @@ func expandArrayTag(baseName string, count int) []string {
 	}
 
 	tag, err := parse_tag_name(baseName)
-	if err != nil || tag.Array_Order == nil || len(tag.Array_Order) == 0 {
-		// No array index found — just return the base name repeated.
-		// This shouldn't happen in normal use.
-		result := make([]string, count)
-		for i := range result {
-			result[i] = baseName
-		}
-		return result
-	}
-
 	// Find the bracket position to reconstruct the name
 	bracketPos := strings.LastIndex(baseName, "[")
-	if bracketPos < 0 {
+	if err != nil || bracketPos < 0 || !strings.HasSuffix(baseName, "]") {
+		// No array index at the end of the name: start at the first element.
 		result := make([]string, count)
 		for i := range result {
-			result[i] = baseName
+			result[i] = fmt.Sprintf("%s[%d]", baseName, i)
 		}
 		return result
 	}
-- 
2.43.0


From 09783a7894e2a0bef77901109ca6a698376e99bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 23/46] fix: data table strings of 83 and 84 characters were
 cut

---
 datatable.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/datatable.go b/datatable.go
index 314c39b..016dea5 100644
--- a/datatable.go
+++ b/datatable.go
@@ -122,10 +122,6 @@ func decodeDataTableValue(cipType CIPType, raw []byte) (any, error) {
 		if strLen > uint32(len(raw)-4) {
 			strLen = uint32(len(raw) - 4)
 		}
-		if len(raw) == 88 && strLen > 82 {
-			// the standard STRING ends in two bytes of padding.
-			strLen = 82
-		}
 		return string(raw[4 : 4+strLen]), nil
 	}
 	r := bytes.NewReader(raw)
-- 
2.43.0


From 46858fb2ee8020fa49773cabdf0685f082eddaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 24/46] fix: element segments above 65535, segment lengths and
 routes with addresses were encoded wrong or crashed

---
 cip_definitions.go |  6 +++---
 path.go            | 29 +++++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index 17f3279..e006daf 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -13,7 +13,7 @@ func (p CIPAddress) Bytes() []byte {
 }
 
 func (p CIPAddress) Len() int {
-	return 0
+	return 1
 }
 
 // Represents a CIP class attribute id - that is a specific attribute of a given class.
@@ -112,7 +112,7 @@ func (p CIPElement) Bytes() []byte {
 	} else {
 
 		b := make([]byte, 6)
-		b[0] = byte(cipElement_16bit)
+		b[0] = byte(cipElement_32bit)
 		binary.LittleEndian.PutUint32(b[2:], uint32(p))
 		return b
 	}
@@ -121,7 +121,7 @@ func (p CIPElement) Bytes() []byte {
 func (p CIPElement) Len() int {
 	if p < 256 {
 		return 2
-	} else if p < 65535 {
+	} else if p < 65536 {
 		return 4
 	}
 	return 6
diff --git a/path.go b/path.go
index 5a5871a..d7b937c 100644
--- a/path.go
+++ b/path.go
@@ -34,6 +34,9 @@ const (
 	segmentTypeExtendedSymbolic segmentType = 0x91
 )
 
+// set in a port segment when the link address is more than one byte long.
+const extendedLinkAddress byte = 1 << 4
+
 // represents the port number on a CIP device
 //
 // If you're going to serialize this class to bytes for transimssion be sure to use one of the gologix
@@ -44,12 +47,12 @@ type CIPPort struct {
 }
 
 func (p CIPPort) Len() int {
-	return 2
+	return len(p.Bytes())
 }
 
 func (p CIPPort) Bytes() []byte {
 	if p.ExtensionLen != 0 {
-		return []byte{p.PortNo, p.ExtensionLen}
+		return []byte{p.PortNo | extendedLinkAddress, p.ExtensionLen}
 
 	}
 	return []byte{p.PortNo}
@@ -70,6 +73,8 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 	parts := strings.Split(path, ",")
 
 	byte_path := make([]byte, 0, len(parts))
+	// whether the last part was a number and so can be the port of an address
+	after_number := false
 
 	for _, part := range parts {
 		// first see if this looks like an IP address.
@@ -78,12 +83,22 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			// for some god forsaken reason the path doesn't use the ip address as actual bytes but as an ascii string.
 			// we first have to set bit 5 in the previous byte to say we're using an extended address for this part.
 			last_pos := len(byte_path) - 1
-			last_byte := byte_path[last_pos]
-			byte_path[last_pos] = last_byte | 1<<4
+			if !after_number || byte_path[last_pos] >= extendedLinkAddress {
+				return nil, fmt.Errorf("address %v does not follow a port number", part)
+			}
+			byte_path[last_pos] |= extendedLinkAddress
 			l := len(part)
+			if l > 255 {
+				return nil, fmt.Errorf("address too long. %v", part)
+			}
 			byte_path = append(byte_path, byte(l))
 			string_bytes := []byte(part)
 			byte_path = append(byte_path, string_bytes...)
+			if l%2 == 1 {
+				// segments have to be an even number of bytes.
+				byte_path = append(byte_path, 0)
+			}
+			after_number = false
 			continue
 		}
 		// not an IP address
@@ -95,6 +110,7 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			return nil, fmt.Errorf("number out of range. %v", part)
 		}
 		byte_path = append(byte_path, byte(val))
+		after_number = true
 	}
 
 	return bytes.NewBuffer(byte_path), nil
@@ -200,9 +216,14 @@ func (pb *PathBuilder) Symbolic(symbol string) *PathBuilder {
 	if pb.Err != nil {
 		return pb
 	}
+	if tag, err := parse_tag_name(symbol); err == nil && (tag.Array_Order != nil || tag.BitAccess) {
+		pb.Err = fmt.Errorf("error writing symbolic ID %v: indexes and bits are not part of a symbol", symbol)
+		return pb
+	}
 	str, err := marshalIOIPart(symbol)
 	if err != nil {
 		pb.Err = fmt.Errorf("error writing symbolic ID %v: %w", symbol, err)
+		return pb
 	}
 	pb.b.Write(str)
 	return pb
-- 
2.43.0


From f7324f4a143e92aef4ac0817c14d03c7220d6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 25/46] fix: structures that are not a multiple of 4 bytes long
 were written short and arrays of them read at the wrong stride

---
 pack.go      | 15 +++++++++++++++
 read.go      | 18 +++++++++++-------
 udt_write.go |  2 +-
 write.go     |  2 +-
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/pack.go b/pack.go
index 81ba4b3..28aa7ab 100644
--- a/pack.go
+++ b/pack.go
@@ -309,6 +309,21 @@ func Pack(w io.Writer, data any) (int, error) {
 	return pos, nil
 }
 
+// packUDT packs a structure the way it is stored in a tag, which is a multiple of its alignment
+// and at least of 4 bytes long.
+func packUDT(w io.Writer, data any) (int, error) {
+	n, err := Pack(w, data)
+	if err != nil {
+		return n, err
+	}
+	align := max(4, cipPack{}.Align(reflect.TypeOf(data)))
+	if rem := n % align; rem != 0 {
+		s, err := w.Write(make([]byte, align-rem))
+		return n + s, err
+	}
+	return n, nil
+}
+
 // deserialize data from r appropriately for CIP messaging
 // obeys alignment and padding rules
 func Unpack(r io.Reader, data any) (n int, err error) {
diff --git a/read.go b/read.go
index 66ce381..1665b41 100644
--- a/read.go
+++ b/read.go
@@ -361,12 +361,16 @@ func (client *Client) Read(tag string, data any) error {
 			return fmt.Errorf("couldn't convert to bytes")
 		}
 
-		b := bytes.NewBuffer(dat)
-		//TODO: unpack here instead of just a read.
-		//err = binary.Read(b, binary.LittleEndian, data)
-		_, err = Unpack(b, data)
-		if err != nil {
-			return fmt.Errorf("couldn't parse str data element %w", err)
+		// the elements are all of the same size in the controller, which can be more than their members need.
+		size := 0
+		if elements > 0 {
+			size = len(dat) / int(elements)
+		}
+		for i := 0; i < int(elements); i++ {
+			_, err = Unpack(bytes.NewBuffer(dat[i*size:(i+1)*size]), v.Index(i).Addr().Interface())
+			if err != nil {
+				return fmt.Errorf("couldn't parse str data element %d: %w", i, err)
+			}
 		}
 
 	default:
@@ -837,7 +841,7 @@ func (tag tagDesc) responseSize() int {
 	case tag.TagType == CIPTypeSTRING:
 		return size + 2 + 88*tag.Elements
 	case tag.TagType == CIPTypeStruct && reflect.ValueOf(tag.Struct).Kind() == reflect.Struct:
-		n, err := Pack(io.Discard, tag.Struct)
+		n, err := packUDT(io.Discard, tag.Struct)
 		if err == nil {
 			return size + 2 + n
 		}
diff --git a/udt_write.go b/udt_write.go
index 90073dd..5c5fcbe 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -219,7 +219,7 @@ func (client *Client) newWriteRequest(tag string, value any) ([]byte, error) {
 		if err != nil {
 			return nil, fmt.Errorf("problem serializing type: %w", err)
 		}
-		_, err = Pack(&item, value)
+		_, err = packUDT(&item, value)
 		if err != nil {
 			return nil, fmt.Errorf("problem packing data: %w", err)
 		}
diff --git a/write.go b/write.go
index 30cdc6a..f6e6a1f 100644
--- a/write.go
+++ b/write.go
@@ -138,7 +138,7 @@ func (client *Client) write_udt(tag string, value any) error {
 
 	UDTdata := bytes.NewBuffer([]byte{})
 
-	_, err = Pack(UDTdata, value)
+	_, err = packUDT(UDTdata, value)
 	if err != nil {
 		return fmt.Errorf("problem packing data. %w", err)
 	}
-- 
2.43.0


From 31422bbb344cb19df7cf6cbffcf7ea24c64ca183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 26/46] fix: the FS, LS, OV and ER bits of timers were lost

---
 lgxtypes/timer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lgxtypes/timer.go b/lgxtypes/timer.go
index 6b6afd7..e4dce71 100644
--- a/lgxtypes/timer.go
+++ b/lgxtypes/timer.go
@@ -35,6 +35,18 @@ func (t TIMER) Pack(w io.Writer) (int, error) {
 	if t.DN {
 		CtrlWord |= 1 << 29
 	}
+	if t.FS {
+		CtrlWord |= 1 << 28
+	}
+	if t.LS {
+		CtrlWord |= 1 << 27
+	}
+	if t.OV {
+		CtrlWord |= 1 << 26
+	}
+	if t.ER {
+		CtrlWord |= 1 << 25
+	}
 
 	err := binary.Write(w, binary.LittleEndian, CtrlWord)
 	if err != nil {
@@ -63,6 +75,10 @@ func (t *TIMER) Unpack(r io.Reader) (int, error) {
 	t.EN = CtrlWord&(1<<31) != 0
 	t.TT = CtrlWord&(1<<30) != 0
 	t.DN = CtrlWord&(1<<29) != 0
+	t.FS = CtrlWord&(1<<28) != 0
+	t.LS = CtrlWord&(1<<27) != 0
+	t.OV = CtrlWord&(1<<26) != 0
+	t.ER = CtrlWord&(1<<25) != 0
 
 	err = binary.Read(r, binary.LittleEndian, &(t.PRE))
 	if err != nil {
-- 
2.43.0


From a7cf748b45975d8fef0f285315415466cd6414ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 27/46] fix: a failed DeSerialize moved the item's position and
 items over 65535 bytes recorded a wrong length

---
 items.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/items.go b/items.go
index 33d1084..e477990 100644
--- a/items.go
+++ b/items.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 type CIPItemID uint16
@@ -94,6 +95,9 @@ func (item *CIPItem) Read(p []byte) (n int, err error) {
 //
 // Appends bytes to the end of the item's buffer.
 func (item *CIPItem) Write(p []byte) (n int, err error) {
+	if len(item.Data)+len(p) > math.MaxUint16 {
+		return 0, fmt.Errorf("an item cannot hold %d bytes", len(item.Data)+len(p))
+	}
 	item.Data = append(item.Data, p...)
 	n = len(p)
 	item.Header.Length = uint16(len(item.Data))
@@ -296,9 +300,14 @@ func (item *CIPItem) Serialize(strs ...any) error {
 // DeSerialize an item's data into the given structure.
 //
 // The position in the item's buffer is updated to account for the number of bytes
-// required.
+// required.  It stays where it is if there are not enough bytes left.
 func (item *CIPItem) DeSerialize(str any) error {
-	return binary.Read(item, binary.LittleEndian, str)
+	pos := item.Pos
+	err := binary.Read(item, binary.LittleEndian, str)
+	if err != nil {
+		item.Pos = pos
+	}
+	return err
 }
 
 func (item *CIPItem) Bytes() ([]byte, error) {
-- 
2.43.0


From 1e5edcc02b7b80cabdc2cf7c7013a9792e5067ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 28/46] fix: the built-in tag provider handed out its own
 arrays, lost elements on partial writes, stored values that did not fit and
 missed tags in another letter case

---
 server_router.go | 136 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 123 insertions(+), 13 deletions(-)

diff --git a/server_router.go b/server_router.go
index 1a9b5ae..9a91e24 100644
--- a/server_router.go
+++ b/server_router.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -102,12 +103,15 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		p.Data = make(map[string]any)
 	}
 
-	baseName, elemIdx, hasElem := parseElementTag(tag)
+	baseName, elemIdx, hasElem := p.resolveTag(tag)
 
 	val, ok := p.Data[baseName]
 	if !ok {
 		return nil, fmt.Errorf("tag %v not in map", tag)
 	}
+	if qty < 0 {
+		return nil, fmt.Errorf("tag %v: invalid element count %d", tag, qty)
+	}
 
 	t := reflect.ValueOf(val)
 
@@ -127,14 +131,12 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		if qty == 1 {
 			return t.Index(elemIdx).Interface(), nil
 		}
-		return t.Slice(elemIdx, end).Interface(), nil
+		return copySlice(t.Slice(elemIdx, end)).Interface(), nil
 	}
 
 	if t.Kind() == reflect.Slice {
 		if int(qty) <= t.Len() {
-			values := reflect.Indirect(t)
-			v := values.Slice(0, int(qty))
-			return v.Interface(), nil
+			return copySlice(t.Slice(0, int(qty))).Interface(), nil
 		}
 		return nil, fmt.Errorf("too many elements requested %v > %v", qty, t.Len())
 	}
@@ -158,7 +160,8 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		p.Data = make(map[string]any)
 	}
 
-	baseName, elemIdx, hasElem := parseElementTag(tag)
+	baseName, elemIdx, hasElem := p.resolveTag(tag)
+	nv := reflect.ValueOf(value)
 
 	if hasElem {
 		existing, ok := p.Data[baseName]
@@ -172,13 +175,11 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		if elemIdx < 0 || elemIdx >= ev.Len() {
 			return fmt.Errorf("tag %v: element index %d out of range [0..%d)", tag, elemIdx, ev.Len())
 		}
-		converted, err := convertToElement(value, ev.Type().Elem())
-		if err != nil {
-			return fmt.Errorf("tag %v: %w", tag, err)
-		}
 		// Slices are reference types — mutating in place is safe under the
 		// lock and matches the in-place semantics of a Logix array write.
-		ev.Index(elemIdx).Set(reflect.ValueOf(converted))
+		if err := setElements(ev, elemIdx, nv); err != nil {
+			return fmt.Errorf("tag %v: %w", tag, err)
+		}
 		return nil
 	}
 
@@ -187,7 +188,18 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 	// so subsequent reads still serialize cleanly.
 	if existing, ok := p.Data[baseName]; ok {
 		ev := reflect.ValueOf(existing)
-		nv := reflect.ValueOf(value)
+		// A single value, or fewer elements than the array has, addresses the
+		// first element(s) of it and leaves the others as they are.
+		if ev.Kind() == reflect.Slice && ev.Len() > 0 && (nv.Kind() != reflect.Slice ||
+			nv.Type().Elem().Kind() == reflect.Interface && nv.Len() < ev.Len()) {
+			if err := setElements(ev, 0, nv); err != nil {
+				return fmt.Errorf("tag %v: %w", tag, err)
+			}
+			return nil
+		}
+		if ev.IsValid() && ev.Kind() != reflect.Slice && nv.Kind() == reflect.Slice {
+			return fmt.Errorf("tag %v: array write on non-slice (%T)", tag, existing)
+		}
 		if ev.Kind() == reflect.Slice && nv.Kind() == reflect.Slice &&
 			nv.Type().Elem().Kind() == reflect.Interface {
 			elemType := ev.Type().Elem()
@@ -204,10 +216,90 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		}
 	}
 
+	// The caller keeps its own slice. A new array that comes as []any gets the
+	// type of its elements, or it could not be read back.
+	if nv.Kind() == reflect.Slice {
+		elemType := nv.Type().Elem()
+		if elemType.Kind() == reflect.Interface && nv.Len() > 0 && !nv.Index(0).IsNil() {
+			elemType = nv.Index(0).Elem().Type()
+		}
+		if elemType == nv.Type().Elem() {
+			p.Data[baseName] = copySlice(nv).Interface()
+			return nil
+		}
+		out := reflect.MakeSlice(reflect.SliceOf(elemType), nv.Len(), nv.Len())
+		if err := setElements(out, 0, nv); err != nil {
+			return fmt.Errorf("tag %v: %w", tag, err)
+		}
+		p.Data[baseName] = out.Interface()
+		return nil
+	}
 	p.Data[baseName] = value
 	return nil
 }
 
+// resolveTag finds the key of the map a tag name (in lower case) belongs to and
+// the element it addresses. An entry for the full access path comes first, and
+// entries the hosting program made itself may be in any letter case.
+func (p *MapTagProvider) resolveTag(tag string) (key string, idx int, hasElem bool) {
+	find := func(name string) (string, bool) {
+		if _, ok := p.Data[name]; ok {
+			return name, true
+		}
+		for k := range p.Data {
+			if strings.ToLower(k) == name {
+				return k, true
+			}
+		}
+		return name, false
+	}
+	key, ok := find(tag)
+	if ok {
+		return key, 0, false
+	}
+	base, idx, hasElem := parseElementTag(tag)
+	key, _ = find(base)
+	return key, idx, hasElem
+}
+
+// copySlice returns a slice with the same elements that shares no memory with s.
+func copySlice(s reflect.Value) reflect.Value {
+	out := reflect.MakeSlice(s.Type(), s.Len(), s.Len())
+	reflect.Copy(out, s)
+	return out
+}
+
+// setElements puts a value, or each value of a slice, in the elements of an array
+// from start on. Nothing is changed if any of them does not fit.
+func setElements(array reflect.Value, start int, value reflect.Value) error {
+	elemType := array.Type().Elem()
+	n := 1
+	many := value.Kind() == reflect.Slice && value.Type() != elemType
+	if many {
+		n = value.Len()
+	}
+	if n > array.Len()-start {
+		return fmt.Errorf("%d elements from index %d do not fit in the %d of the array", n, start, array.Len())
+	}
+	converted := reflect.MakeSlice(array.Type(), n, n)
+	for i := 0; i < n; i++ {
+		v := value
+		if many {
+			v = value.Index(i)
+		}
+		if !v.IsValid() || v.Kind() == reflect.Interface && v.IsNil() {
+			return fmt.Errorf("element %d: no value", start+i)
+		}
+		c, err := convertToElement(v.Interface(), elemType)
+		if err != nil {
+			return fmt.Errorf("element %d: %w", start+i, err)
+		}
+		converted.Index(i).Set(reflect.ValueOf(c))
+	}
+	reflect.Copy(array.Slice(start, start+n), converted)
+	return nil
+}
+
 // parseElementTag splits a tag name on the trailing `[N]` element
 // indexer that ioi.go's getTagFromPath appends when a CIP request
 // addresses a specific array element. Returns hasElem=false when the
@@ -233,11 +325,29 @@ func parseElementTag(tag string) (base string, idx int, hasElem bool) {
 // converted value or an error if the cast isn't representable.
 func convertToElement(value any, target reflect.Type) (any, error) {
 	v := reflect.ValueOf(value)
+	if !v.IsValid() {
+		return nil, fmt.Errorf("cannot convert %T to %v", value, target)
+	}
 	if v.Type() == target {
 		return value, nil
 	}
 	if v.Type().ConvertibleTo(target) {
-		return v.Convert(target).Interface(), nil
+		c := v.Convert(target)
+		switch {
+		case v.CanFloat() && c.CanFloat():
+			if !math.IsInf(c.Float(), 0) || math.IsInf(v.Float(), 0) {
+				return c.Interface(), nil
+			}
+		case (v.CanInt() || v.CanUint() || v.CanFloat()) && (c.CanInt() || c.CanUint() || c.CanFloat()):
+			// the same value comes back and keeps its sign
+			negative := func(x reflect.Value) bool { return x.CanInt() && x.Int() < 0 || x.CanFloat() && x.Float() < 0 }
+			if c.Convert(v.Type()).Equal(v) && negative(v) == negative(c) {
+				return c.Interface(), nil
+			}
+			return nil, fmt.Errorf("%v does not fit in %v", value, target)
+		case v.Kind() == c.Kind():
+			return c.Interface(), nil
+		}
 	}
 	return nil, fmt.Errorf("cannot convert %T to %v", value, target)
 }
-- 
2.43.0


From 802d5f9330f19069d6e5fb66040ebd8b5fff2b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 29/46] fix: importing an L5X project lost controller arrays
 and structures, nested members, radix values and out-of-range values, and
 crashed on missing sections

---
 l5x/load_tags.go | 226 ++++++++++++++++++++++++++++++-----------------
 l5x/schema.go    |  12 ++-
 l5x/types.go     | 132 ++++++++++++++++++++++-----
 3 files changed, 264 insertions(+), 106 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index 23db452..9587e87 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -1,6 +1,7 @@
 package l5x
 
 import (
+	"bytes"
 	"fmt"
 	"strconv"
 	"strings"
@@ -8,85 +9,37 @@ import (
 
 func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 
-	var err error
 	tags := make(map[string]any)
+	if l5xData == nil || l5xData.Controller == nil {
+		return tags, nil
+	}
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
-		if tag.Data != nil {
-			if len(tag.Data) > 1 {
-				if tag.Data[1].DataValue != nil {
-					tags[tag.NameAttr], err = L5xTypeToGoType(tag.DataTypeAttr, tag.Data[1].DataValue.ValueAttr)
-				}
+	if l5xData.Controller.Tags != nil {
+		for _, tag := range l5xData.Controller.Tags.Tag {
+			value, ok, err := tagValue(tag)
+			if err != nil {
+				return nil, fmt.Errorf("error converting %s: %w", tag.NameAttr, err)
+			}
+			if ok {
+				tags[tag.NameAttr] = value
 			}
-		}
-		if err != nil {
-			return nil, fmt.Errorf("error converting %s: %s", tag.NameAttr, err)
 		}
 	}
 
+	if l5xData.Controller.Programs == nil {
+		return tags, nil
+	}
 	for _, program := range l5xData.Controller.Programs.Program {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
-			tagname := tag.NameAttr
-			tagtype := tag.DataTypeAttr
-			if len(tag.Data) > 1 {
-				// could be an atomic value
-				if tag.Data[1].DataValue != nil {
-					progtags[tagname], err = L5xTypeToGoType(tagtype, tag.Data[1].DataValue.ValueAttr)
-					if err != nil {
-						return nil, fmt.Errorf("error converting %s.%s: %s", progprefix, tagname, err)
-					}
-					continue
+		if program.Tags != nil {
+			for _, tag := range program.Tags.Tag {
+				value, ok, err := tagValue(tag)
+				if err != nil {
+					return nil, fmt.Errorf("error converting %s.%s: %w", progprefix, tag.NameAttr, err)
 				}
-				// or a structure
-				if tag.Data[1].Structure != nil {
-					mapValue := make(map[string]any)
-					for _, member := range tag.Data[1].Structure.DataValueMember {
-						mapValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
-						if err != nil {
-							return nil, fmt.Errorf("error converting %s.%s.%s: %s", progprefix, tagname, member.NameAttr, err)
-						}
-					}
-					progtags[tagname] = mapValue
-					continue
-				}
-				// or an array of atomic values or structures
-				if tag.Data[1].Array != nil {
-
-					dims, err := strconv.ParseInt(tag.DimensionsAttr, 10, 64)
-					if err != nil {
-						return nil, fmt.Errorf("%s.%s invalid dimensions on %s: %s", progprefix, tagname, tag.DimensionsAttr, err)
-					}
-					arrValue := make([]any, 0, dims)
-					for _, element := range tag.Data[1].Array.Element {
-						if element.Structure != nil {
-							// this is an array of structures
-							myValue := make(map[string]any)
-							for _, member := range element.Structure[0].DataValueMember {
-								if member.DataTypeAttr == "STRING" {
-									myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.CData())
-									if err != nil {
-										return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
-									}
-									continue
-								}
-								myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
-								if err != nil {
-									return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
-								}
-							}
-							arrValue = append(arrValue, myValue)
-							continue
-						}
-
-						val, err := L5xTypeToGoType(tagtype, element.ValueAttr)
-						if err != nil {
-							return nil, fmt.Errorf("error converting %s: %s", tagname, err)
-						}
-						arrValue = append(arrValue, val)
-					}
-					progtags[tagname] = arrValue
+				if ok {
+					progtags[tag.NameAttr] = value
 				}
 			}
 		}
@@ -97,13 +50,90 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 
 }
 
-func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
-	dtm := GetDataTypeMap(l5xData)
+// tagValue converts the decorated data of a tag, if it has any.
+func tagValue(tag *TagType) (value any, ok bool, err error) {
+	for _, data := range tag.Data {
+		switch {
+		case data.DataValue != nil:
+			// an atomic value
+			value, err = memberValue(tag.DataTypeAttr, data.DataValue)
+			return value, err == nil, err
+		case data.Structure != nil:
+			value, err = structureValue(data.Structure)
+			return value, err == nil, err
+		case data.Array != nil:
+			// an array of atomic values or structures
+			value, err = arrayValue(tag.DataTypeAttr, data.Array)
+			return value, err == nil, err
+		}
+	}
+	return nil, false, nil
+}
 
+func structureValue(structure *DataStructure) (map[string]any, error) {
+	var err error
+	out := make(map[string]any)
+	for _, member := range structure.DataValueMember {
+		out[member.NameAttr], err = memberValue(member.DataTypeAttr, member)
+		if err != nil {
+			return nil, fmt.Errorf("error converting %s: %w", member.NameAttr, err)
+		}
+	}
+	for _, member := range structure.StructureMember {
+		out[member.NameAttr], err = structureValue(member)
+		if err != nil {
+			return nil, fmt.Errorf("error converting %s: %w", member.NameAttr, err)
+		}
+	}
+	for _, member := range structure.ArrayMember {
+		out[member.NameAttr], err = arrayValue(member.DataTypeAttr, member)
+		if err != nil {
+			return nil, fmt.Errorf("error converting %s: %w", member.NameAttr, err)
+		}
+	}
+	return out, nil
+}
+
+func arrayValue(datatype string, array *DataArray) ([]any, error) {
+	out := make([]any, 0, len(array.Element))
+	for _, element := range array.Element {
+		var value any
+		var err error
+		if len(element.Structure) > 0 {
+			value, err = structureValue(element.Structure[0])
+		} else {
+			value, err = L5xTypeToGoType(datatype, element.ValueAttr)
+		}
+		if err != nil {
+			return nil, fmt.Errorf("error converting element %s: %w", element.IndexAttr, err)
+		}
+		out = append(out, value)
+	}
+	return out, nil
+}
+
+// memberValue converts a single value. The text of a string is the content of
+// the element, everything else is in its Value attribute.
+func memberValue(datatype string, value *DataValue) (any, error) {
+	if value.ValueAttr == "" && (datatype == "STRING" || len(bytes.TrimSpace(value.InnerValue)) > 0) {
+		return unescapeString(value.CData())
+	}
+	return L5xTypeToGoType(datatype, value.ValueAttr)
+}
+
+func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	var err error
 	tags := make(map[string]string)
+	if l5xData == nil || l5xData.Controller == nil {
+		return tags, nil
+	}
+	dtm := GetDataTypeMap(l5xData)
 
-	for _, module := range l5xData.Controller.Modules.Module {
+	var modules []*MapDeviceType
+	if l5xData.Controller.Modules != nil {
+		modules = l5xData.Controller.Modules.Module
+	}
+	for _, module := range modules {
 		if module.Communications == nil {
 			continue
 		}
@@ -148,7 +178,11 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
+	var controllerTags []*TagType
+	if l5xData.Controller.Tags != nil {
+		controllerTags = l5xData.Controller.Tags.Tag
+	}
+	for _, tag := range controllerTags {
 
 		mydesc := ""
 		if tag.Data != nil {
@@ -168,9 +202,16 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, program := range l5xData.Controller.Programs.Program {
+	var programs []*AProgramType
+	if l5xData.Controller.Programs != nil {
+		programs = l5xData.Controller.Programs.Program
+	}
+	for _, program := range programs {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
+		if program.Tags == nil {
+			continue
+		}
 		for _, tag := range program.Tags.Tag {
 			tagname := tag.NameAttr
 			if len(tag.Description) > 1 {
@@ -192,9 +233,15 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 
 func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	comments := make(map[string]string)
+	if l5xData == nil || l5xData.Controller == nil || l5xData.Controller.Programs == nil {
+		return comments, nil
+	}
 
 	taskLookup := make(map[string]string)
-	tasks := l5xData.Controller.Tasks.Task
+	var tasks []*TaskType
+	if l5xData.Controller.Tasks != nil {
+		tasks = l5xData.Controller.Tasks.Task
+	}
 	for _, task := range tasks {
 		if task.ScheduledPrograms == nil {
 			continue
@@ -205,6 +252,9 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	}
 
 	for _, program := range l5xData.Controller.Programs.Program {
+		if program.Routines == nil {
+			continue
+		}
 		for _, routine := range program.Routines.Routine {
 			for _, rungContent := range routine.RLLContent {
 				for _, rung := range rungContent.Rung {
@@ -227,6 +277,9 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 // convert list of data types to a map[string]any
 func GetDataTypeMap(l5xData RSLogix5000Content) map[string]*DataTypeType {
 	dataTypes := make(map[string]*DataTypeType)
+	if l5xData == nil || l5xData.Controller == nil || l5xData.Controller.DataTypes == nil {
+		return dataTypes
+	}
 
 	for _, dataType := range l5xData.Controller.DataTypes.DataType {
 		dataTypes[dataType.NameAttr] = dataType
@@ -236,10 +289,21 @@ func GetDataTypeMap(l5xData RSLogix5000Content) map[string]*DataTypeType {
 }
 
 func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string]string {
+	return getTypeComments(types, typeName, nil)
+}
+
+// outer has the names of the types typeName is a member of.
+func getTypeComments(types map[string]*DataTypeType, typeName string, outer []string) map[string]string {
 	dt, ok := types[typeName]
-	if !ok {
+	if !ok || dt == nil {
 		return nil
 	}
+	for _, name := range outer {
+		if name == typeName {
+			return nil
+		}
+	}
+	outer = append(outer[:len(outer):len(outer)], typeName)
 	out := make(map[string]string)
 	myDescription := ""
 	if dt.Description != nil {
@@ -248,8 +312,9 @@ func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string
 	out[typeName] = myDescription
 	members := dt.Members
 	if members == nil {
+		return out
 	}
-	for _, member := range dt.Members.Member {
+	for _, member := range members.Member {
 		//typeName := fmt.Sprintf("%s.%s", typeName, member.NameAttr)
 		memberDesc := myDescription
 		if member.Description != nil {
@@ -261,10 +326,13 @@ func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string
 		}
 		name := member.NameAttr
 		//out[member.NameAttr] = memberDesc
-		submembers := GetTypeComments(types, member.DataTypeAttr)
+		submembers := getTypeComments(types, member.DataTypeAttr, outer)
 		if member.DataTypeAttr == "BIT" {
 			// bit number is BitNumberAttr + TargetAttr[-2:] - 1 ?
-			offset_str := member.TargetAttr[len(member.TargetAttr)-2:]
+			offset_str := member.TargetAttr
+			if len(offset_str) > 2 {
+				offset_str = offset_str[len(offset_str)-2:]
+			}
 			offset_str = strings.TrimLeft(offset_str, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
 			num, err := strconv.Atoi(offset_str)
 			if err != nil {
diff --git a/l5x/schema.go b/l5x/schema.go
index 72d6ed9..dbcfade 100644
--- a/l5x/schema.go
+++ b/l5x/schema.go
@@ -156,7 +156,7 @@ type DescriptionType struct {
 }
 
 func (d DescriptionType) CData() string {
-	return ParseCData(d.InnerValue)
+	return parseText(d.InnerValue)
 }
 
 // DescriptionTextType ...
@@ -3864,7 +3864,7 @@ type CommentWideType struct {
 }
 
 func (d CommentWideType) CData() string {
-	return ParseCData(d.InnerValue)
+	return parseText(d.InnerValue)
 }
 
 // LocalizedCommentWideType ...
@@ -3979,12 +3979,18 @@ type DataStructure struct {
 	ArrayMember     []*DataArray     `xml:"ArrayMember"`
 }
 
-func ParseCData(iv []byte) string {
+// parseText returns the text of a CDATA section as it is.
+func parseText(iv []byte) string {
 	cv := string(iv)
 	cv = strings.TrimSpace(cv)
 	// everything should have this prefix and suffix
 	cv = strings.TrimPrefix(cv, "<![CDATA[")
 	cv = strings.TrimSuffix(cv, "]]>")
+	return cv
+}
+
+func ParseCData(iv []byte) string {
+	cv := parseText(iv)
 	// strings have single quotes around them so remove them too
 	// this does nothing if it's not a string
 	cv = strings.TrimPrefix(cv, "'")
diff --git a/l5x/types.go b/l5x/types.go
index f76db98..bf9ca03 100644
--- a/l5x/types.go
+++ b/l5x/types.go
@@ -2,45 +2,129 @@ package l5x
 
 import (
 	"fmt"
+	"math"
 	"strconv"
+	"strings"
 )
 
 func L5xTypeToGoType(typestr string, valuestr string) (any, error) {
 	switch typestr {
 	case "REAL":
-		value, _ := strconv.ParseFloat(valuestr, 64)
-		return float64(value), nil
+		return parseFloat(valuestr, 32)
+	case "LREAL":
+		return parseFloat(valuestr, 64)
 	case "DINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
-		return int32(value), nil
+		value, err := parseInt(valuestr, 32)
+		return int32(value), err
 	case "BOOL", "BIT":
-		value, _ := strconv.ParseBool(valuestr)
-		return bool(value), nil
+		if value, err := strconv.ParseBool(valuestr); err == nil {
+			return value, nil
+		}
+		value, err := parseUint(valuestr, 1)
+		return value == 1, err
 	case "INT":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
-		return int16(value), nil
+		value, err := parseInt(valuestr, 16)
+		return int16(value), err
 	case "STRING":
 		return valuestr, nil
 	case "SINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
-		return int8(value), nil
+		value, err := parseInt(valuestr, 8)
+		return int8(value), err
 	case "LINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
-		return int64(value), nil
-	case "BYTE":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
-		return uint8(value), nil
-	case "WORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
-		return uint16(value), nil
-	case "DWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
-		return uint32(value), nil
-	case "LWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
-		return uint64(value), nil
+		value, err := parseInt(valuestr, 64)
+		return int64(value), err
+	case "BYTE", "USINT":
+		value, err := parseUint(valuestr, 8)
+		return uint8(value), err
+	case "WORD", "UINT":
+		value, err := parseUint(valuestr, 16)
+		return uint16(value), err
+	case "DWORD", "UDINT":
+		value, err := parseUint(valuestr, 32)
+		return uint32(value), err
+	case "LWORD", "ULINT":
+		value, err := parseUint(valuestr, 64)
+		return uint64(value), err
 
 	default:
 		return fmt.Sprintf("Unknown type: %s", typestr), nil
 	}
 }
+
+// splitRadix separates the radix prefix of a value (2#, 8# or 16#) from its digits.
+func splitRadix(s string) (digits string, base int) {
+	for prefix, b := range map[string]int{"2#": 2, "8#": 8, "16#": 16} {
+		if strings.HasPrefix(s, prefix) {
+			return strings.ReplaceAll(s[len(prefix):], "_", ""), b
+		}
+	}
+	return s, 10
+}
+
+func parseUint(s string, bits int) (uint64, error) {
+	digits, base := splitRadix(s)
+	return strconv.ParseUint(digits, base, bits)
+}
+
+// parseInt parses a signed value. With a radix prefix it is the two's complement bits.
+func parseInt(s string, bits int) (int64, error) {
+	digits, base := splitRadix(s)
+	if base == 10 {
+		return strconv.ParseInt(digits, base, bits)
+	}
+	value, err := strconv.ParseUint(digits, base, bits)
+	return int64(value<<(64-bits)) >> (64 - bits), err
+}
+
+func parseFloat(s string, bits int) (float64, error) {
+	switch {
+	case strings.HasPrefix(s, "1.#INF"):
+		return math.Inf(1), nil
+	case strings.HasPrefix(s, "-1.#INF"):
+		return math.Inf(-1), nil
+	case strings.Contains(s, "1.#"): // QNAN, SNAN, IND
+		return math.NaN(), nil
+	}
+	if _, err := strconv.ParseFloat(s, bits); err != nil {
+		return 0, err
+	}
+	return strconv.ParseFloat(s, 64)
+}
+
+// unescapeString replaces the $ sequences of a string value by the characters they stand for.
+func unescapeString(s string) (string, error) {
+	var out strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] != '$' {
+			out.WriteByte(s[i])
+			continue
+		}
+		i++
+		if i >= len(s) {
+			return "", fmt.Errorf("incomplete escape sequence at the end of %q", s)
+		}
+		switch s[i] {
+		case '$', '\'':
+			out.WriteByte(s[i])
+		case 'L', 'l', 'N', 'n':
+			out.WriteByte('\n')
+		case 'P', 'p':
+			out.WriteByte('\f')
+		case 'R', 'r':
+			out.WriteByte('\r')
+		case 'T', 't':
+			out.WriteByte('\t')
+		default:
+			if i+1 >= len(s) {
+				return "", fmt.Errorf("incomplete escape sequence at the end of %q", s)
+			}
+			b, err := strconv.ParseUint(s[i:i+2], 16, 8)
+			if err != nil {
+				return "", fmt.Errorf("bad escape sequence in %q: %w", s, err)
+			}
+			out.WriteByte(byte(b))
+			i++
+		}
+	}
+	return out.String(), nil
+}
-- 
2.43.0


From 713b276ff966f0fd271632cf13eafafacb907ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 30/46] fix: fragments of another type or with additional
 status and cut structure arrays were decoded as values

---
 read.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/read.go b/read.go
index 1665b41..176d579 100644
--- a/read.go
+++ b/read.go
@@ -365,6 +365,10 @@ func (client *Client) Read(tag string, data any) error {
 		size := 0
 		if elements > 0 {
 			size = len(dat) / int(elements)
+			// structures take a whole number of 32 bit words.
+			if len(dat)%int(elements) != 0 || size%4 != 0 {
+				return fmt.Errorf("%d bytes are not %d structures", len(dat), elements)
+			}
 		}
 		for i := 0; i < int(elements); i++ {
 			_, err = Unpack(bytes.NewBuffer(dat[i*size:(i+1)*size]), v.Index(i).Addr().Interface())
@@ -471,6 +475,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	// 0x06 (PartialTransfer) means the response only carries part of the array;
 	// follow up with FragRead requests until the controller returns 0x00. Any
 	// other non-zero general status is a hard error to surface immediately.
+	if hdr2.Status[2] != 0 && (hdr2.Status[1] == 0 || hdr2.Status[1] == byte(CIPStatus_PartialTransfer)) {
+		return nil, fmt.Errorf("read of %s returned status %v with unexpected additional status", tag, CIPStatus(hdr2.Status[1]))
+	}
 	if hdr2.Status[1] == byte(CIPStatus_PartialTransfer) {
 		// Struct tag-data carries a 2-byte StructHandle that the controller
 		// repeats in every FragRead response; deduplicating that across
@@ -482,7 +489,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 			return nil, fmt.Errorf("partial transfer read of %s: structured tag types are not yet supported in fragmented reads", tag)
 		}
 		maxSize := int(elements) * max(hdr2.Type.Size(), 1)
-		merged, err := client.readFragmented(ioi, elements, items[1].Data[items[1].Pos:], maxSize)
+		merged, err := client.readFragmented(ioi, hdr2.Type, elements, items[1].Data[items[1].Pos:], maxSize)
 		if err != nil {
 			return nil, fmt.Errorf("partial transfer read of %s: %w", tag, err)
 		}
@@ -1325,12 +1332,12 @@ func (client *Client) ReadMap(m map[string]any) error {
 // arrived with the first (non-FragRead) response — the returned slice is the
 // full concatenation of every fragment's data section, ready to feed into the
 // existing per-type parsing path. It fails when the fragments stop making
-// progress or add up to more than maxSize bytes.
-func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData []byte, maxSize int) ([]byte, error) {
+// progress or add up to more than maxSize bytes, or when one is not of type typ.
+func (client *Client) readFragmented(ioi *tagIOI, typ CIPType, elements uint16, initialData []byte, maxSize int) ([]byte, error) {
 	accumulated := bytes.NewBuffer(append([]byte(nil), initialData...))
 	for {
 		offset := uint32(accumulated.Len())
-		fragData, status, err := client.sendFragReadRequest(ioi, elements, offset)
+		fragData, status, err := client.sendFragReadRequest(ioi, typ, elements, offset)
 		if err != nil {
 			return nil, err
 		}
@@ -1354,7 +1361,7 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 // requested element count, and byte offset. It returns the data portion of the
 // response (everything after the type+unknown header), the general status byte,
 // and any transport-level error.
-func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset uint32) ([]byte, byte, error) {
+func (client *Client) sendFragReadRequest(ioi *tagIOI, typ CIPType, elements uint16, offset uint32) ([]byte, byte, error) {
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = client.connectionAddressItem()
 
@@ -1394,5 +1401,10 @@ func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset u
 	if err := items[1].DeSerialize(&hdr2); err != nil {
 		return nil, 0, fmt.Errorf("FragRead inner header: %w", err)
 	}
+	if hdr2.Status[1] == 0 || hdr2.Status[1] == byte(CIPStatus_PartialTransfer) {
+		if hdr2.Status[2] != 0 || hdr2.Type != typ {
+			return nil, 0, fmt.Errorf("FragRead reply of type %v with %d words of status does not continue the read of %v", hdr2.Type, hdr2.Status[2], typ)
+		}
+	}
 	return items[1].Data[items[1].Pos:], hdr2.Status[1], nil
 }
-- 
2.43.0


From 86d79a12ad6484854012814ffd735706ed4c276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 31/46] fix: listing tags reported success after the connection
 broke while reading a structure

---
 listalltags.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/listalltags.go b/listalltags.go
index fd8e837..f43934d 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -334,7 +334,9 @@ func (client *Client) listTagsFrom(start_instance uint32, fallbackProgramNames b
 					"template ID", tag_ftr.Template_ID(),
 					"predefined", tag_ftr.PreDefined(),
 					"error", err)
-				//return err
+				if !client.Connected() {
+					return 0, false, fmt.Errorf("problem reading members of %s: %w", tag_string, err)
+				}
 			} else {
 				kt.UDT = &u
 				client.Logger.Debug("Successful member read for %s", "name", kt.Name)
-- 
2.43.0


From a1776fe0db53a3d51fc057fbca55b26aff1489c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 32/46] fix: callers sharing a client failed while one of them
 connected, sent requests on a half-open connection and raced on the program
 list

---
 client.go      | 2 ++
 connect.go     | 3 +++
 listalltags.go | 6 +++++-
 sendreceive.go | 3 ++-
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 0b3eab4..a6783c3 100644
--- a/client.go
+++ b/client.go
@@ -93,6 +93,8 @@ type Client struct {
 	mutex      sync.Mutex
 	conn       net.Conn
 	connStatus connectionStatus
+	// one caller at a time connects on first use
+	connect_lock sync.Mutex
 
 	SessionHandle          uint32
 	OTNetworkConnectionID  uint32
diff --git a/connect.go b/connect.go
index e9cd5f0..6f48db5 100644
--- a/connect.go
+++ b/connect.go
@@ -580,6 +580,9 @@ type msgEIPForwardOpen_Standard_Reply struct {
 }
 
 func (client *Client) checkConnection() error {
+	// callers that arrive while another one is connecting wait for that connection.
+	client.connect_lock.Lock()
+	defer client.connect_lock.Unlock()
 	if !client.Connected() {
 		if client.AutoConnect {
 			err := client.Connect()
diff --git a/listalltags.go b/listalltags.go
index f43934d..08c4678 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -138,8 +138,12 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		// forget the tags that no longer exist.
 		client.known_lock.Lock()
 		client.KnownTags = make(map[string]KnownTag)
-		client.known_lock.Unlock()
+		programs := make([]*KnownProgram, 0, len(client.KnownPrograms))
 		for _, p := range client.KnownPrograms {
+			programs = append(programs, p)
+		}
+		client.known_lock.Unlock()
+		for _, p := range programs {
 			_, err := client.ListSubTags(p, 1)
 			if err != nil {
 				return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
diff --git a/sendreceive.go b/sendreceive.go
index b52fe4b..56e9463 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -102,7 +102,8 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
-	if client.conn == nil {
+	// there is nothing to send connected messages on until the connection has been opened.
+	if client.conn == nil || cmd == cipCommandSendUnitData && client.connStatus != connectionStatusConnected {
 		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("not connected")
 	}
-- 
2.43.0


From 7c4671659e95367dda2b1fb07f3448ef1680ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 33/46] fix: a keepalive cancelled right after Connect started
 all the same

---
 connect.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/connect.go b/connect.go
index 6f48db5..fb14f07 100644
--- a/connect.go
+++ b/connect.go
@@ -88,7 +88,9 @@ func (client *Client) Connect() error {
 			client.connStatus = connectionStatusConnected
 			client.mutex.Unlock()
 			if client.KeepAliveAutoStart {
-				go client.KeepAlive()
+				if cancel := client.startKeepAlive(); cancel != nil {
+					go client.runKeepAlive(cancel)
+				}
 			}
 		}
 	}()
@@ -205,24 +207,36 @@ func (client *Client) registerSession() error {
 }
 
 func (client *Client) KeepAlive() {
+	if cancel := client.startKeepAlive(); cancel != nil {
+		client.runKeepAlive(cancel)
+	}
+}
+
+// startKeepAlive marks the keepalive as running and returns the channel that cancels it,
+// or nil if there is none to run.
+func (client *Client) startKeepAlive() chan struct{} {
 	if !client.KeepAliveAutoStart || client.SocketTimeout == 0 {
-		return
+		return nil
 	}
 	if client.KeepAliveFrequency <= 0 {
 		client.Logger.Error("keepalive needs a positive frequency", slog.Any("frequency", client.KeepAliveFrequency))
-		return
+		return nil
 	}
 	client.mutex.Lock()
 	if client.keepAliveRunning {
 		client.mutex.Unlock()
 		err := errors.New("keepalive already running")
 		client.Logger.Warn(err.Error())
-		return
+		return nil
 	}
 	cancel := make(chan struct{})
 	client.cancel_keepalive = cancel
 	client.keepAliveRunning = true
 	client.mutex.Unlock()
+	return cancel
+}
+
+func (client *Client) runKeepAlive(cancel chan struct{}) {
 	client.Logger.Debug("starting keep alive")
 	defer func() {
 		client.mutex.Lock()
-- 
2.43.0


From 313bbb46dde46dee42fdd622976f049480415ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 34/46] fix: listing all tags again kept structure definitions
 of before

---
 listalltags.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/listalltags.go b/listalltags.go
index 08c4678..18e6d5f 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -135,9 +135,11 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 				return fmt.Errorf("problem listing programs: %w", err)
 			}
 		}
-		// forget the tags that no longer exist.
+		// forget the tags and types that no longer exist.
 		client.known_lock.Lock()
 		client.KnownTags = make(map[string]KnownTag)
+		client.KnownTypes = make(map[string]UDTDescriptor)
+		client.KnownTypesByID = make(map[uint32]UDTDescriptor)
 		programs := make([]*KnownProgram, 0, len(client.KnownPrograms))
 		for _, p := range client.KnownPrograms {
 			programs = append(programs, p)
-- 
2.43.0


From ae60fa60992c141c5868cd1fbbd52814a5eb46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 35/46] fix: the server took a request's data for more of its
 path, lost 32 bit indexes and could crash on an index without a tag

---
 ioi.go                | 65 +++++++++++++++++++++++++++++++++++++------
 server_connected.go   | 15 +++-------
 server_unconnected.go | 14 ++--------
 3 files changed, 63 insertions(+), 31 deletions(-)

diff --git a/ioi.go b/ioi.go
index c441b14..c12f148 100644
--- a/ioi.go
+++ b/ioi.go
@@ -283,10 +283,45 @@ func getAsciiTagPart(item *CIPItem) (string, error) {
 	tag_str := string(b)
 	return tag_str, nil
 }
+
+// readTagPath reads the path of a request: its size in words and then the tag. The size has to be respected because
+// the data that follows may look like more path.
+func readTagPath(item *CIPItem) (string, error) {
+	words, err := item.Byte()
+	if err != nil {
+		return "", fmt.Errorf("couldn't get path size: %w", err)
+	}
+	path := CIPItem{Data: make([]byte, int(words)*2)}
+	err = item.DeSerialize(&path.Data)
+	if err != nil {
+		return "", fmt.Errorf("couldn't get path: %w", err)
+	}
+	tag, err := getTagFromPath(&path)
+	if err != nil {
+		return "", err
+	}
+	if tag == "" || path.Pos != len(path.Data) {
+		return "", fmt.Errorf("path %v is not that of a tag", path.Data)
+	}
+	return tag, nil
+}
+
 func getTagFromPath(item *CIPItem) (string, error) {
 
 	tag_str := ""
 
+	addIndex := func(index uint32) error {
+		if tag_str == "" {
+			return errors.New("an index without a tag")
+		}
+		if tag_str[len(tag_str)-1] == ']' {
+			tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], index)
+		} else {
+			tag_str = fmt.Sprintf("%s[%d]", tag_str, index)
+		}
+		return nil
+	}
+
 morepath:
 	for {
 		// we haven't read all the tag path info.
@@ -307,10 +342,9 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
-			if tag_str[len(tag_str)-1] == ']' {
-				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
-			} else {
-				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			err = addIndex(uint32(array_index))
+			if err != nil {
+				return "", err
 			}
 		case 0x29:
 			// two byte index
@@ -324,10 +358,25 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
-			if tag_str[len(tag_str)-1] == ']' {
-				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
-			} else {
-				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			err = addIndex(uint32(array_index))
+			if err != nil {
+				return "", err
+			}
+		case 0x2A:
+			// four byte index
+			var pad byte
+			err = item.DeSerialize(&pad)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get padding: %w", err)
+			}
+			var array_index uint32
+			err = item.DeSerialize(&array_index)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get array index: %w", err)
+			}
+			err = addIndex(array_index)
+			if err != nil {
+				return "", err
 			}
 		case 0x91:
 			// ascii portion of tag path
diff --git a/server_connected.go b/server_connected.go
index 4e500c9..90e8cb0 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -7,14 +7,8 @@ import (
 )
 
 func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
-	var l byte // length in words
 	item := items[1]
-	err := item.DeSerialize(&l)
-	if err != nil {
-		return fmt.Errorf("problem deserializing item length %w", err)
-	}
-
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item)
 	if err != nil {
 		return fmt.Errorf("problem deserializing tag bytes %w", err)
 	}
@@ -281,13 +275,12 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("error getting sequence ID: %w / %v", err, err2)
 	}
-	var pathlen uint16
-	err = item.DeSerialize(&pathlen)
+	_, err = item.Byte()
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting path len: %w / %v", err, err2)
+		return fmt.Errorf("error getting service: %w / %v", err, err2)
 	}
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item)
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
diff --git a/server_unconnected.go b/server_unconnected.go
index 2e674fa..7cd4285 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -334,12 +334,7 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 }
 
 func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
-	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
-	}
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
@@ -575,12 +570,7 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 }
 
 func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
-	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
-	}
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
-- 
2.43.0


From 3f8b2d3b0299dbecef12d121941bad3f79ba0e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 36/46] fix: server services: batches stay within their bounds
 and answer each item, fragment offsets and string arrays are honoured, bad
 requests get an error status instead of a crash or a closed connection

---
 server_connected.go   | 369 +++++++++++++++++++++---------------------
 server_unconnected.go | 136 +++++++---------
 2 files changed, 245 insertions(+), 260 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 90e8cb0..72e1c82 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 )
 
 func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
@@ -13,13 +14,6 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 		return fmt.Errorf("problem deserializing tag bytes %w", err)
 	}
 
-	results, err := parseWriteValues(&item)
-	if err != nil {
-		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
-	}
-	qty := uint16(len(results))
-	h.server.Logger.Debug("write", "tag", tag, "value", results)
-
 	if items[0].Header.ID != cipItem_ConnectionAddress {
 		return fmt.Errorf("expected a connection address item in item 0. got %v", items[0].Header.ID)
 	}
@@ -39,16 +33,9 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem finding tag provider for %v(%v). %w", connID, conn.Path, err)
 	}
-	if qty > 1 {
-		err = p.TagWrite(tag, results)
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
-	} else {
-		err = p.TagWrite(tag, results[0])
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
+	err = h.writeTag(p, tag, &item)
+	if err != nil {
+		return err
 	}
 
 	// path is part of the forward open we've previously received.
@@ -96,138 +83,49 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 	}
 
 	// need to handle this differently!
-	pb := make([]byte, pathlen*2)
+	pb := make([]byte, int(pathlen)*2)
 	err = item.DeSerialize(&pb)
 	if err != nil {
 		return fmt.Errorf("problem dumping path bytes from multi-svc header")
 	}
+	start := item.Pos // the offsets count from here
 	qty, err := item.Uint16()
 	if err != nil {
 		return fmt.Errorf("problem getting multisvc item count: %w", err)
 	}
-	offsets := make([]int16, qty)
+	offsets := make([]uint16, qty)
 	results := make([][]byte, qty)
 	for i := range offsets {
-		offsets[i], err = item.Int16()
+		offsets[i], err = item.Uint16()
 		if err != nil {
 			return fmt.Errorf("problem getting multisvc offset for item %d: %w", i, err)
 		}
 	}
 
+	status := CIPStatus_OK
 	for i := range results {
-		item.Pos = int(offsets[i]) + 8 // seek to the start of the multi-service payload data.
+		// a request ends where the next one starts
+		from, end := start+int(offsets[i]), len(item.Data)
+		for _, o := range offsets {
+			if next := start + int(o); next > from && next < end {
+				end = next
+			}
+		}
+		if from < item.Pos || from >= end {
+			return fmt.Errorf("multisvc offset %d of item %d is outside the message", offsets[i], i)
+		}
+		request := CIPItem{Data: item.Data[from:end]}
 		var svc CIPService
-		err = item.DeSerialize(&svc)
+		err = request.DeSerialize(&svc)
 		if err != nil {
 			return fmt.Errorf("problem getting multiread service for item %d: %w", i, err)
 		}
-
-		svcReqSize, err := item.Byte()
+		results[i], err = h.multiServiceItem(p, svc, &request)
 		if err != nil {
-			return fmt.Errorf("problem getting service req payload size for item %d: %w", i, err)
-		}
-		_ = svcReqSize // don't need this yet.  It is in 16 bit words.
-
-		switch svc {
-		case CIPService_FragRead,
-			CIPService_Read:
-			tagname, err := getTagFromPath(&item)
-			if err != nil {
-				return fmt.Errorf("problem getting multiread tagname for item %d: %w", i, err)
-			}
-			qty, err := item.Uint16()
-			if err != nil {
-				return fmt.Errorf("error getting write qty: %w", err)
-			}
-
-			result, err := p.TagRead(tagname, int16(qty))
-			if err != nil {
-				return fmt.Errorf("problem getting data for %s from provider. %w", tagname, err)
-			}
-
-			// build this portion of the response msg
-
-			typ, _ := GoVarToCIPType(result)
-			rhdr := msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ}
-			b, err := Serialize(rhdr)
-			if err != nil {
-				return fmt.Errorf("problem serializing header for %s: %w", tagname, err)
-			}
-			if typ == CIPTypeSTRING {
-				res_str, ok := result.(string)
-				if !ok {
-					return errors.New("expected a string but didn't get one")
-				}
-				b_dat, err := Serialize(cipStringPacker(res_str))
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				b.Truncate(4)
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			} else {
-				b_dat, err := Serialize(result)
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			}
-
-			results[i] = b.Bytes()
-		case CIPService_Write,
-			CIPService_FragWrite:
-
-			tag, err := getTagFromPath(&item)
-			if err != nil {
-				return fmt.Errorf("problem deserializing tag bytes %w", err)
-			}
-
-			var typ CIPType
-			err = item.DeSerialize(&typ)
-			if err != nil {
-				return fmt.Errorf("problem deserializing cip type %w", err)
-			}
-			var reserved byte
-			err = item.DeSerialize(&reserved)
-			if err != nil {
-				return fmt.Errorf("problem deserializing reserved byte %w", err)
-			}
-			var qty uint16
-			err = item.DeSerialize(&qty)
-			if err != nil {
-				return fmt.Errorf("problem deserializing element count %w", err)
-			}
-
-			writeTags := make([]any, qty)
-			for i := 0; i < int(qty); i++ {
-				writeTags[i], err = typ.readValue(&item)
-				if err != nil {
-					return fmt.Errorf("problem getting write element %d: %w", i, err)
-				}
-			}
-			h.server.Logger.Debug("Write", "tag", tag, "value", writeTags)
-
-			if qty > 1 {
-				err = p.TagWrite(tag, writeTags)
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
-			} else {
-				err = p.TagWrite(tag, writeTags[0])
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
-			}
-
-			results[i] = []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}
-
+			h.server.Logger.Warn("problem with embedded service", "item", i, "service", svc, "error", err)
+			results[i] = []byte{byte(svc.AsResponse()), 0x00, byte(failedStatus(err)), 0x00}
+			status = CIPStatus_EmbeddedServiceError
 		}
-
 	}
 
 	response := make([]any, qty+2)
@@ -244,7 +142,123 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 		response[2+i] = results[i]
 	}
 
-	return h.sendConnectedReply(CIPService_MultipleService, seq, connection.TO, response...)
+	return h.sendConnectedStatus(CIPService_MultipleService, seq, connection.TO, status, response...)
+}
+
+// multiServiceItem carries out one of the requests of a multiple service request and returns the reply to it.
+func (h *serverTCPHandler) multiServiceItem(p CIPEndpoint, svc CIPService, item *CIPItem) ([]byte, error) {
+	switch svc {
+	case CIPService_FragRead, CIPService_Read:
+		tag, err := readTagPath(item)
+		if err != nil {
+			return nil, fmt.Errorf("problem getting multiread tagname: %w", err)
+		}
+		payload, err := readTag(p, svc, tag, item)
+		if err != nil {
+			return nil, err
+		}
+		b, err := Serialize(append([]any{[]byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}}, payload...)...)
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing data for %s: %w", tag, err)
+		}
+		return b.Bytes(), nil
+	case CIPService_Write:
+		tag, err := readTagPath(item)
+		if err != nil {
+			return nil, fmt.Errorf("problem deserializing tag bytes %w", err)
+		}
+		err = h.writeTag(p, tag, item)
+		if err != nil {
+			return nil, err
+		}
+		return []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}, nil
+	}
+	return nil, CIPStatusError{Status: CIPStatus_ServiceNotSupported}
+}
+
+// failedStatus is the status for a request that failed with err.
+func failedStatus(err error) CIPStatus {
+	var status CIPStatusError
+	if errors.As(err, &status) {
+		return status.Status
+	}
+	return CIPStatus_InvalidParameter
+}
+
+// readTag carries out what is left of a read request after its path and returns the data of the reply.
+func readTag(p CIPEndpoint, svc CIPService, tag string, item *CIPItem) ([]any, error) {
+	qty, err := item.Uint16()
+	if err != nil {
+		return nil, fmt.Errorf("error getting read qty: %w", err)
+	}
+	if qty > math.MaxInt16 {
+		return nil, fmt.Errorf("%w: %d elements", CIPStatusError{Status: CIPStatus_ReplyDataTooLarge}, qty)
+	}
+	offset := uint32(0)
+	if svc == CIPService_FragRead {
+		offset, err = item.Uint32()
+		if err != nil {
+			return nil, fmt.Errorf("error getting read offset: %w", err)
+		}
+	}
+	result, err := p.TagRead(tag, int16(qty))
+	if err != nil {
+		return nil, fmt.Errorf("%w: problem getting data for %s from provider: %v", CIPStatusError{Status: CIPStatus_InvalidMemberID}, tag, err)
+	}
+	typ, _ := GoVarToCIPType(result)
+	if typ == CIPTypeSTRING {
+		if offset != 0 {
+			return nil, fmt.Errorf("reading strings from offset %d is not supported", offset)
+		}
+		switch x := result.(type) {
+		case string:
+			return []any{cipStringPacker(x)}, nil
+		case []string:
+			// the type comes once, before the first of them.
+			payload := make([]any, 0, len(x))
+			for i, s := range x {
+				b := cipStringPacker(s).Bytes()
+				if i > 0 {
+					b = b[cipStringSlotLen-cipStringTagDataLen:]
+				}
+				payload = append(payload, b)
+			}
+			return payload, nil
+		}
+		return nil, fmt.Errorf("%w: was expecting a string but got %T", CIPStatusError{Status: CIPStatus_InvalidAttributeValue}, result)
+	}
+	if offset == 0 {
+		return []any{typ, byte(0), result}, nil
+	}
+	b, err := Serialize(result)
+	if err != nil {
+		return nil, fmt.Errorf("problem serializing data for %s: %w", tag, err)
+	}
+	if int64(offset) > int64(b.Len()) {
+		return nil, fmt.Errorf("offset %d is past the end of %s", offset, tag)
+	}
+	return []any{typ, byte(0), b.Bytes()[offset:]}, nil
+}
+
+// writeTag carries out what is left of a write request after its path.
+func (h *serverTCPHandler) writeTag(p CIPEndpoint, tag string, item *CIPItem) error {
+	results, err := parseWriteValues(item)
+	if err != nil {
+		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
+	}
+	h.server.Logger.Debug("write", "tag", tag, "value", results)
+	switch len(results) {
+	case 0:
+		return fmt.Errorf("%w: write of tag %s without a value", CIPStatusError{Status: CIPStatus_NotEnoughData}, tag)
+	case 1:
+		err = p.TagWrite(tag, results[0])
+	default:
+		err = p.TagWrite(tag, results)
+	}
+	if err != nil {
+		return fmt.Errorf("problem writing tag %v. %w", tag, err)
+	}
+	return nil
 }
 
 // connectedRead handles both CIPService_Read (0x4C) and CIPService_FragRead
@@ -257,13 +271,13 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 	var connID uint32
 	err := items[0].DeSerialize(&connID)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("couldn't get connection ID from item 0: %w / %v", err, err2)
+		h.server.Logger.Warn("problem with read", "error", err)
+		return h.sendConnectedError(reqSvc, 0, 0, CIPStatus_InvalidParameter, 0)
 	}
 	connection, err := h.server.ConnMgr.GetByOT(connID)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_ConnectionLost, 0)
-		return fmt.Errorf("couldn't get connection with ID %v: %w /%v", connID, err, err2)
+		h.server.Logger.Warn("problem with read", "error", err)
+		return h.sendConnectedError(reqSvc, 0, 0, CIPStatus_ConnectionLost, 0)
 	}
 
 	items[1].Reset()
@@ -272,65 +286,32 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 	var seq uint16
 	err = item.DeSerialize(&seq)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting sequence ID: %w / %v", err, err2)
+		h.server.Logger.Warn("problem with read", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 	}
 	_, err = item.Byte()
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting service: %w / %v", err, err2)
+		h.server.Logger.Warn("problem with read", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 	}
 	tag, err := readTagPath(&item)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
+		h.server.Logger.Warn("problem with read", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 	}
-	var qty uint16
-	err = item.DeSerialize(&qty)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting write qty: %w / %v", err, err2)
-	}
-
 	path := connection.Path
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_PathDestinationUnknown, 0)
-		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, err, err2)
+		h.server.Logger.Warn("problem with read", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_PathDestinationUnknown, 0)
 	}
-	p := provider
-	result, err := p.TagRead(tag, int16(qty))
+	payload, err := readTag(provider, reqSvc, tag, &item)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
-		return fmt.Errorf("problem getting data from provider. %w / %v", err, err2)
-	}
-	typ, _ := GoVarToCIPType(result)
-
-	if typ == CIPTypeSTRING {
-		// Single STRING — the common case for atomic tag reads.
-		if res_str, ok := result.(string); ok {
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, cipStringPacker(res_str))
-		}
-		// STRING array — emit one cipStringPacker block per element, back
-		// to back. The L24ER MSG and pylogix both unpack the wire as N×90
-		// contiguous STRING slots when the request asks for multiple
-		// elements of a STRING tag. Without this branch, full-array reads
-		// of `strarr` failed with "Invalid Attribute" because the generic
-		// fallback below tried binary.Write on a Go `[]string`, which is
-		// not fixed-size and explodes inside the serializer.
-		if res_strs, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(res_strs))
-			for _, s := range res_strs {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, payloads...)
-		}
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
-		return fmt.Errorf("was expecting a string but didn't get one: %w", err2)
-	} else {
-		return h.sendConnectedReply(reqSvc, seq, connection.TO, typ, byte(0), result)
+		h.server.Logger.Warn("problem with read", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, failedStatus(err), 0)
 	}
+	return h.sendConnectedReply(reqSvc, seq, connection.TO, payload...)
 }
 
 // cipStringStructCRC is the StructTypeCRC the Logix STRING UDT serializes
@@ -440,6 +421,11 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 		if structCRC != cipStringStructCRC {
 			return nil, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X", cipStringStructCRC, structCRC)
 		}
+		// the padding at the end of each may be missing.
+		pad := make([]byte, cipStringStructPad)
+		if len(item.Rest()) < int(qty)*cipStringTagDataLen {
+			pad = nil
+		}
 		for i := 0; i < int(qty); i++ {
 			var slen uint32
 			if err := item.DeSerialize(&slen); err != nil {
@@ -449,6 +435,9 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 			if err := item.DeSerialize(&data); err != nil {
 				return nil, fmt.Errorf("error reading STRING DATA for element %d: %w", i, err)
 			}
+			if err := item.DeSerialize(&pad); err != nil {
+				return nil, fmt.Errorf("error reading STRING padding for element %d: %w", i, err)
+			}
 			if slen > cipStringDataLen {
 				slen = cipStringDataLen
 			}
@@ -468,11 +457,16 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 }
 
 func (h *serverTCPHandler) sendConnectedReply(s CIPService, seq uint16, connID uint32, payload ...any) error {
+	return h.sendConnectedStatus(s, seq, connID, CIPStatus_OK, payload...)
+}
+
+func (h *serverTCPHandler) sendConnectedStatus(s CIPService, seq uint16, connID uint32, status CIPStatus, payload ...any) error {
 	items := make([]CIPItem, 2)
 	items[0] = newItem(cipItem_ConnectionAddress, connID)
 	items[1] = newItem(cipItem_ConnectedData, seq)
 	resp := msgUnconnWriteResultHeader{
 		Service: s.AsResponse(),
+		Status:  status,
 	}
 	err := items[1].Serialize(resp)
 	if err != nil {
@@ -528,6 +522,19 @@ func (h *serverTCPHandler) connectedGetAttr(items []CIPItem) error {
 
 }
 
+// attributeData is an attribute of the identity as a reply carries it. Text is a byte with its length and then that
+// many characters.
+func attributeData(value any) any {
+	text, ok := value.(string)
+	if !ok {
+		return value
+	}
+	if len(text) > 255 {
+		text = text[:255]
+	}
+	return append([]byte{byte(len(text))}, text...)
+}
+
 func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPItem) error {
 
 	var seq uint16
@@ -547,7 +554,7 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 	}
 
 	if path_size != 3 {
-		return fmt.Errorf("currently only support getattrsingle path size of 3. got %d", path_size)
+		return fmt.Errorf("%w: currently only support getattrsingle path size of 3. got %d", CIPStatusError{Status: CIPStatus_PathSegmentError}, path_size)
 	}
 
 	var cls CIPClass
@@ -563,7 +570,7 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 	}
 
 	if cls != 1 || inst != 1 {
-		return fmt.Errorf("only support class 1 instance 1 so far. got %d:%d", cls, inst)
+		return fmt.Errorf("%w: only support class 1 instance 1 so far. got %d:%d", CIPStatusError{Status: CIPStatus_PathDestinationUnknown}, cls, inst)
 	}
 
 	var attr CIPAttribute
@@ -574,9 +581,9 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 
 	result, ok := h.server.Attributes[attr]
 	if !ok {
-		return fmt.Errorf("bad attribute %d", attr)
+		return fmt.Errorf("%w: bad attribute %d", CIPStatusError{Status: CIPStatus_AttributeNotSupported}, attr)
 	}
 
-	return h.sendConnectedReply(CIPService_FragRead, seq, connection.TO, result)
+	return h.sendConnectedReply(CIPService_GetAttributeSingle, seq, connection.TO, attributeData(result))
 
 }
diff --git a/server_unconnected.go b/server_unconnected.go
index 7cd4285..0183069 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -71,7 +71,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting path size 305. %w", err)
 		}
-		path := make([]byte, pathsize*2)
+		path := make([]byte, int(pathsize)*2)
 		err = item.DeSerialize(&path)
 		if err != nil {
 			return fmt.Errorf("error getting path. %w", err)
@@ -86,6 +86,23 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting embedded size. %w", err)
 		}
+		// the embedded message is followed by the route to the device it is for.
+		message := make([]byte, embedded_size)
+		err = item.DeSerialize(&message)
+		if err != nil {
+			return fmt.Errorf("error getting embedded message. %w", err)
+		}
+		if embedded_size%2 == 1 {
+			_, err = item.Byte() // padding
+			if err != nil {
+				return fmt.Errorf("error getting embedded message padding. %w", err)
+			}
+		}
+		route, err := readRoute(&item)
+		if err != nil {
+			return fmt.Errorf("error getting route. %w", err)
+		}
+		item = CIPItem{Header: item.Header, Data: message}
 		var emService CIPService
 		err = item.DeSerialize(&emService)
 		if err != nil {
@@ -93,11 +110,11 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		}
 		switch emService {
 		case CIPService_Write:
-			return h.unconnectedServiceWrite(item)
+			return h.unconnectedAnswer(emService, h.unconnectedServiceWrite(item, route))
 		case CIPService_Read:
-			return h.unconnectedServiceRead(item)
+			return h.unconnectedAnswer(emService, h.unconnectedServiceRead(item, route))
 		case CIPService_GetAttributeSingle:
-			return h.unconnectedServiceGetAttrSingle(item)
+			return h.unconnectedAnswer(emService, h.unconnectedServiceGetAttrSingle(item))
 		case CIPService_SetAttributeSingle:
 			// Reached via FactoryTalk View's CIP Object write path: the
 			// request is wrapped in UnconnectedSend (0x52) instead of going
@@ -105,9 +122,9 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 			// case the wrapped write fell through to the default branch and
 			// FT View saw "Service not supported", which surfaced in its
 			// Diagnostics List as "Problem writing value ... to item ...".
-			return h.unconnectedServiceSetAttrSingle(item)
+			return h.unconnectedAnswer(emService, h.unconnectedServiceSetAttrSingle(item))
 		case CIPService_GetAttributeAll:
-			return h.unconnectedGetAttributeAll(item)
+			return h.unconnectedAnswer(emService, h.unconnectedGetAttributeAll(item))
 		default:
 			// Reply with an explicit ServiceNotSupported CIP error so the
 			// originator knows the device is alive but the service isn't
@@ -131,6 +148,30 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 	return nil
 }
 
+// unconnectedAnswer sees to it that a request that failed with err is answered too.
+func (h *serverTCPHandler) unconnectedAnswer(s CIPService, err error) error {
+	if err == nil {
+		return nil
+	}
+	h.server.Logger.Warn("unconnected service failed", "service", s, "error", err)
+	return h.sendUnconnectedErrorReply(s, failedStatus(err))
+}
+
+// readRoute reads the path that follows the message of an unconnected send.
+func readRoute(item *CIPItem) ([]byte, error) {
+	words, err := item.Byte()
+	if err != nil {
+		return nil, err
+	}
+	_, err = item.Byte() // reserved
+	if err != nil {
+		return nil, err
+	}
+	route := make([]byte, int(words)*2)
+	err = item.DeSerialize(&route)
+	return route, err
+}
+
 // unconnectedGetAttributeAll handles CIP Get_Attributes_All (service 0x01).
 // External CIP clients (FactoryTalk Linx shortcut bind, pycomm3
 // LogixDriver.open(), RSLogix MSG path browse) probe Identity Object
@@ -333,42 +374,19 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 	return buf.Bytes(), nil
 }
 
-func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
+func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, path []byte) error {
 	tag, err := readTagPath(&item)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
-	results, err := parseWriteValues(&item)
-	if err != nil {
-		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
-	}
-	qty := uint16(len(results))
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
-	if err != nil {
-		return fmt.Errorf("couldn't get path size 374. %w", err)
-	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("couldn't get path. %w", err)
-	}
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
 		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
 	}
-	p := provider
-	if qty > 1 {
-		err = p.TagWrite(tag, results)
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
-	} else {
-		err = p.TagWrite(tag, results[0])
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
+	err = h.writeTag(provider, tag, &item)
+	if err != nil {
+		return err
 	}
 
 	return h.sendUnconnectedRRDataReply(CIPService_Write)
@@ -469,8 +487,7 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 		return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_AttributeNotSupported)
 	}
 
-	typ, _ := GoVarToCIPType(val)
-	return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, byte(0), val)
+	return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, attributeData(val))
 }
 
 // unconnectedServiceSetAttrSingle handles CIP Set_Attribute_Single (0x10)
@@ -569,61 +586,22 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 	return tags[instance-1].Name, true
 }
 
-func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
+func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, path []byte) error {
 	tag, err := readTagPath(&item)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
-	var qty uint16
-	err = item.DeSerialize(&qty)
-	if err != nil {
-		return fmt.Errorf("error getting write qty. %w", err)
-	}
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
-	if err != nil {
-		return fmt.Errorf("couldn't get path size 374. %w", err)
-	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("couldn't get path. %w", err)
-	}
-	h.server.Logger.Debug("read", "tag", tag, "path", path, "qty", qty)
+	h.server.Logger.Debug("read", "tag", tag, "path", path)
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
 		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
 	}
-	p := provider
-	result, err := p.TagRead(tag, int16(qty))
+	payload, err := readTag(provider, CIPService_Read, tag, &item)
 	if err != nil {
-		return fmt.Errorf("problem getting data from provider. %w", err)
-	}
-	h.server.Logger.Debug("Read", "tag", tag, "path", path, "qty", qty, "results", result)
-	typ, _ := GoVarToCIPType(result)
-
-	// STRING values need the Logix STRING UDT wire format (type segment
-	// `0xA0 0x02 0x0FCE` + LEN + DATA[82] + alignment padding) instead of
-	// raw bytes, otherwise external clients (pylogix, FT Linx, MSG read on
-	// a real Logix controller) can't decode the reply. Mirror the special
-	// branch the connected read path already had, so a single STRING tag
-	// and a STRING element of an array both deserialize cleanly.
-	if typ == CIPTypeSTRING {
-		if s, ok := result.(string); ok {
-			return h.sendUnconnectedRRDataReply(CIPService_Read, cipStringPacker(s))
-		}
-		if ss, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(ss))
-			for _, s := range ss {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendUnconnectedRRDataReply(CIPService_Read, payloads...)
-		}
+		return err
 	}
-
-	return h.sendUnconnectedRRDataReply(CIPService_Read, typ, byte(0), result)
-
+	return h.sendUnconnectedRRDataReply(CIPService_Read, payload...)
 }
 
 // sendUnconnectedErrorReply emits a CIP error response carrying a non-zero
-- 
2.43.0


From 66f96ac9e0b384025b2df7d27dc9f62038835e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:32 +0000
Subject: [PATCH 37/46] fix: I/O providers changed their data on short packets
 and blocked the server when nobody read the channel

---
 server_io.go        | 11 ++++++++++-
 server_iochannel.go | 12 +++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/server_io.go b/server_io.go
index cde4d06..55c6f58 100644
--- a/server_io.go
+++ b/server_io.go
@@ -27,6 +27,9 @@ type IOProvider[Tin, Tout any] struct {
 func (p *IOProvider[Tin, Tout]) IORead() ([]byte, error) {
 	p.InMutex.Lock()
 	defer p.InMutex.Unlock()
+	if p.In == nil {
+		return nil, errors.New("no input data")
+	}
 	b := bytes.Buffer{}
 	_, err := Pack(&b, *(p.In))
 	if err != nil {
@@ -68,10 +71,16 @@ func (p *IOProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	p.OutMutex.Lock()
 	defer p.OutMutex.Unlock()
 
-	_, err = Unpack(b, p.Out)
+	if p.Out == nil {
+		return errors.New("no output data")
+	}
+	// data that is not complete leaves the output as it is
+	out := *p.Out
+	_, err = Unpack(b, &out)
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	*p.Out = out
 
 	return nil
 }
diff --git a/server_iochannel.go b/server_iochannel.go
index 2c2d9ff..03ea185 100644
--- a/server_iochannel.go
+++ b/server_iochannel.go
@@ -20,6 +20,7 @@ import (
 type IOChannelProvider[Tin, Tout any] struct {
 	inMutex     sync.Mutex
 	in          Tin
+	outMutex    sync.Mutex
 	outChannels []chan Tout
 }
 
@@ -70,12 +71,15 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
 	for i := range p.outChannels {
+		// what nobody took yet is out of date now
 		select {
-		case p.outChannels[i] <- out:
+		case <-p.outChannels[i]:
 		default:
-			return errors.New("problem sending IOWrite data. channel full?")
 		}
+		p.outChannels[i] <- out
 	}
 
 	return nil
@@ -92,7 +96,9 @@ func (p *IOChannelProvider[Tin, Tout]) TagWrite(tag string, value any) error {
 // returns the most udpated copy of the output data
 // this output data is what the PLC is writing to us
 func (p *IOChannelProvider[Tin, Tout]) GetOutputDataChannel() <-chan Tout {
-	newout := make(chan Tout)
+	newout := make(chan Tout, 1)
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
 	p.outChannels = append(p.outChannels, newout)
 	return newout
 }
-- 
2.43.0


From f03718f6a90a48509d9e7dbb7a5b6c88ed54420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 38/46] fix: server: connections belong to the client that
 opened them, every request gets one reply, and a message is not read beyond
 its own length

---
 server.go             | 261 ++++++++++++++++++++++++++++++------------
 server_connections.go |  65 +++++++++++
 2 files changed, 251 insertions(+), 75 deletions(-)

diff --git a/server.go b/server.go
index 43cd03e..642c788 100644
--- a/server.go
+++ b/server.go
@@ -3,8 +3,11 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
+	"io"
 	"log/slog"
+	"math"
 	"math/rand"
 	"net"
 	"strings"
@@ -29,6 +32,7 @@ type Server struct {
 // dispatch the appropriate code
 type serverTCPHandler struct {
 	conn           net.Conn
+	body           io.Reader // what follows the header of the current message
 	server         *Server
 	handle         uint32
 	options        uint32
@@ -78,7 +82,7 @@ func (srv *Server) Serve() error {
 
 	// we'll start two server goroutines and then wait for either of them to error out on the error channel.
 
-	errCh := make(chan error)
+	errCh := make(chan error, 2)
 
 	go func() {
 		err := srv.serveUDP()
@@ -116,6 +120,9 @@ func (srv *Server) Serve() error {
 func (srv *Server) serveTCP() error {
 	for {
 		conn, err := srv.TCPListener.Accept()
+		if errors.Is(err, net.ErrClosed) {
+			return err
+		}
 		if err != nil {
 			srv.Logger.Error("problem with tcp accept", "error", err)
 			continue
@@ -143,8 +150,10 @@ func (srv *Server) serveUDP() error {
 	bufSize := 4096
 	for {
 		b := make([]byte, 4096)
-		buf := bytes.NewBuffer(b)
 		n, addr, err := srv.UDPListener.ReadFrom(b)
+		if errors.Is(err, net.ErrClosed) {
+			return err
+		}
 		if n == 0 {
 			srv.Logger.Debug("Read 0 bytes on udp listener.")
 			continue
@@ -160,7 +169,7 @@ func (srv *Server) serveUDP() error {
 		_ = addr // don't need this yet.
 		// we've read a packet on udp so we need to parse the eip data
 
-		items, err := readItems(buf)
+		items, err := readItems(bytes.NewReader(b[:n]))
 		if err != nil {
 			srv.Logger.Debug("problem reading udp items", "error", err)
 			continue
@@ -178,7 +187,7 @@ func (srv *Server) serveUDP() error {
 				continue
 			}
 			h, err := srv.ConnMgr.GetByOT(io_info.ConnectionID)
-			if err != nil {
+			if err != nil || !h.io {
 				srv.Logger.Debug("couldn't find handler to handle IO message", "connection", io_info.ConnectionID)
 				continue
 			}
@@ -204,6 +213,7 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 	// if this function ends, close and remove ourselves from the server's open connection list.
 	defer func() {
 		h.conn.Close()
+		srv.ConnMgr.closeAllOf(h)
 	}()
 
 	for {
@@ -213,6 +223,7 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 			return fmt.Errorf("problem reading eip header. %w", err)
 		}
 		h.context = eipHdr.Context
+		h.body = io.LimitReader(h.conn, int64(eipHdr.Length))
 		h.server.Logger.Debug("New Context", "context", h.context)
 		switch eipHdr.Command {
 		case cipCommandRegisterSession:
@@ -242,7 +253,21 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 			if err != nil {
 				return fmt.Errorf("problem with sendListIdentity %w", err)
 			}
-
+		case cipCommandUnRegisterSession:
+			return nil
+		case cipCommand_NOP:
+			// there is no reply to these.
+		default:
+			h.server.Logger.Warn("unsupported command", "command", eipHdr.Command)
+			err = h.sendUnsupportedCommand(eipHdr.Command)
+			if err != nil {
+				return fmt.Errorf("problem with reply to command %v: %w", eipHdr.Command, err)
+			}
+		}
+		// leave nothing of this message for the next one.
+		_, err = io.Copy(io.Discard, h.body)
+		if err != nil {
+			return fmt.Errorf("problem reading the rest of a message: %w", err)
 		}
 	}
 
@@ -251,15 +276,15 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(h.body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(h.body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(h.body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -285,6 +310,26 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	if err != nil {
 		return fmt.Errorf("problem deserializing service %w", err)
 	}
+	conn, err := h.server.ConnMgr.GetByOT(connId)
+	if err != nil || conn.owner != h {
+		h.server.Logger.Warn("request on a connection that is not open", "connection", connId)
+		h.TOConnectionID = 0
+		return h.sendUnitDataErrorReply(service, CIPStatus_ConnectionLost)
+	}
+	h.TOConnectionID = conn.TO
+	err = h.connectedService(service, items)
+	if err != nil {
+		h.server.Logger.Warn("connected service failed", "service", service, "error", err)
+		return h.sendUnitDataErrorReply(service, failedStatus(err))
+	}
+	h.server.Logger.Debug("send unit data service requested", "service", service)
+	return nil
+}
+
+// connectedService carries out and answers a request that came over an open connection.
+// When it returns an error the request still needs an answer.
+func (h *serverTCPHandler) connectedService(service CIPService, items []CIPItem) error {
+	var err error
 	switch service {
 	case CIPService_Write:
 		err = h.cipConnectedWrite(items)
@@ -340,7 +385,6 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 		h.server.Logger.Warn("connected: unsupported service", "service", service)
 		return h.sendUnitDataErrorReply(service, CIPStatus_ServiceNotSupported)
 	}
-	h.server.Logger.Debug("send unit data service requested", "service", service)
 	return nil
 }
 
@@ -514,15 +558,15 @@ func (h *serverTCPHandler) sendUnitDataReply(s CIPService) error {
 func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(h.body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(h.body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(h.body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -530,17 +574,13 @@ func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
 		return fmt.Errorf("expected 2 items. got %v", len(items))
 	}
 	switch items[1].Header.ID {
-	case cipItem_ConnectedData:
-		var service CIPService
-		err = items[1].DeSerialize(&service)
-		if err != nil {
-			return fmt.Errorf("failed to get service. %w", err)
-		}
-		return h.connectedRead(service, items)
 	case cipItem_UnconnectedData:
-		return h.unconnectedData(items[1])
+		if len(items[1].Data) == 0 {
+			return errors.New("no service")
+		}
+		return h.unconnectedAnswer(CIPService(items[1].Data[0]), h.unconnectedData(items[1]))
 	}
-	return nil
+	return fmt.Errorf("unexpected item %v", items[1].Header.ID)
 }
 
 func (h *serverTCPHandler) forwardClose(i CIPItem) error {
@@ -551,17 +591,68 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 		return fmt.Errorf("problem parsing forward close %w", err)
 	}
 	h.server.Logger.Info("Closing connection", "serial", fwd_close.ConnectionSerialNumber)
-	err = h.server.ConnMgr.CloseByID(fwd_close.ConnectionSerialNumber)
+	triad := msgConnectionTriad{fwd_close.ConnectionSerialNumber, fwd_close.VendorID, fwd_close.OriginatorSerialNumber}
+	err = h.server.ConnMgr.closeBySerial(h, triad)
 	if err != nil {
-		return fmt.Errorf("couldn't close open connection with ID %v. %v", fwd_close.ConnectionSerialNumber, err)
+		h.server.Logger.Warn("couldn't close connection", "serial", triad.ConnectionSerialNumber, "error", err)
+		return h.sendConnectionFailure(CIPService_ForwardClose, connectionNotFound, triad)
 	}
+	return h.sendUnconnectedRRDataReply(CIPService_ForwardClose, triad, uint16(0))
+}
 
-	path := make([]byte, fwd_close.PathSize*2)
-	err = i.DeSerialize(&path)
+// msgConnectionTriad identifies a connection among those of all originators.
+type msgConnectionTriad struct {
+	ConnectionSerialNumber uint16
+	VendorID               uint16
+	OriginatorSerialNumber uint32
+}
+
+// extended status of a failed forward open or close
+const (
+	connectionNotFound       uint16 = 0x0107
+	connectionNotSupported   uint16 = 0x0103
+	connectionRPINotPossible uint16 = 0x0111
+	connectionPathUnknown    uint16 = 0x0312
+)
+
+// sendConnectionFailure answers a forward open or close that was not carried out.
+func (h *serverTCPHandler) sendConnectionFailure(s CIPService, extended uint16, triad msgConnectionTriad) error {
+	items := make([]CIPItem, 2)
+	items[0] = newItem(cipItem_Null, nil)
+	items[1] = newItem(cipItem_UnconnectedData, nil)
+	resp := msgUnconnWriteResultHeader{Service: s.AsResponse(), Status: CIPStatus_ConnectionFailure, StatusExtended: 1}
+	err := items[1].Serialize(resp, extended, triad, uint16(0))
 	if err != nil {
-		return fmt.Errorf("problem parsing forward close path %w", err)
+		return fmt.Errorf("problem serializing connection failure: %w", err)
 	}
-	return nil
+	itemData, err := serializeItems(items)
+	if err != nil {
+		return fmt.Errorf("could not serialize items: %w", err)
+	}
+	return h.send(cipCommandSendRRData, itemData)
+}
+
+// connectionRoute is the part of a connection path that leads to the endpoint, which is the port segments at its start.
+func connectionRoute(path []byte) []byte {
+	n := 0
+	for n < len(path) && path[n]&0xE0 == 0 && path[n] != 0 {
+		size := 2 // port and link
+		if path[n]&0x10 != 0 && n+1 < len(path) {
+			size = 2 + int(path[n+1]) // port, size of the link and the link itself
+		}
+		if path[n]&0x0F == 0x0F {
+			size += 2 // the port follows as a word
+		}
+		size += size % 2
+		if n+size > len(path) {
+			break
+		}
+		n += size
+	}
+	if n == 0 && len(path) >= 2 {
+		n = 2
+	}
+	return path[:n]
 }
 
 // in this message T is for target and O is for originator so
@@ -623,13 +714,23 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
 	}
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
-	path := fwd_path[:2]
+	path := connectionRoute(fwd_path)
+	triad := msgConnectionTriad{fwd_open.ConnectionSerialNumber, fwd_open.VendorID, fwd_open.OriginatorSerialNumber}
+	_, err = h.server.Router.Resolve(path)
+	if err != nil {
+		h.server.Logger.Warn("no tag provider for connection", "path", path)
+		return h.sendConnectionFailure(fwd_open.Service, connectionPathUnknown, triad)
+	}
+	if fwd_open.TransportTrigger == 1 {
+		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
+		return h.sendConnectionFailure(fwd_open.Service, connectionNotSupported, triad)
+	}
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
@@ -642,12 +743,22 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		h.TOConnectionID = fwd_open.TOConnectionID
 	}
 	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+	cipConnection := &serverConnection{
+		TO:   fwd_open.TOConnectionID,
+		OT:   fwd_open.OTConnectionID,
+		ID:   fwd_open.ConnectionSerialNumber,
+		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path: path,
+		Open: true,
+
+		owner: h,
+		triad: triad,
+		io:    fwd_open.TransportTrigger == 1,
 	}
-	fwd_open.OTConnectionID = h.OTConnectionID
+
+	h.server.ConnMgr.Add(cipConnection)
+
+	h.OTConnectionID = cipConnection.OT
 	// Echo the requested RPI back as the Actual Packet Interval (API). CIP
 	// spec ODVA Vol 1 §3-5.6 allows the target to commit to a different API
 	// than what was requested, but it MUST report a non-zero value the
@@ -683,21 +794,6 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
-	if fwd_open.TransportTrigger == 1 {
-		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
-	}
-
 	return nil
 }
 
@@ -708,7 +804,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
@@ -723,7 +819,16 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	// then a "simple data segment" of some mystery data.
 
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
-	path := fwd_path[:2]
+	path := connectionRoute(fwd_path)
+	triad := msgConnectionTriad{fwd_open.ConnectionSerialNumber, fwd_open.VendorID, fwd_open.OriginatorSerialNumber}
+	tp, err := h.server.Router.Resolve(path)
+	if err != nil {
+		h.server.Logger.Warn("no tag provider for connection", "path", path)
+		return h.sendConnectionFailure(fwd_open.Service, connectionPathUnknown, triad)
+	}
+	if fwd_open.TransportTrigger == 1 && fwd_open.TORPI == 0 {
+		return h.sendConnectionFailure(fwd_open.Service, connectionRPINotPossible, triad)
+	}
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
@@ -736,12 +841,22 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		h.TOConnectionID = fwd_open.TOConnectionID
 	}
 	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+	cipConnection := &serverConnection{
+		TO:   fwd_open.TOConnectionID,
+		OT:   fwd_open.OTConnectionID,
+		ID:   fwd_open.ConnectionSerialNumber,
+		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path: path,
+		Open: true,
+
+		owner: h,
+		triad: triad,
+		io:    fwd_open.TransportTrigger == 1,
 	}
-	fwd_open.OTConnectionID = h.OTConnectionID
+
+	h.server.ConnMgr.Add(cipConnection)
+
+	h.OTConnectionID = cipConnection.OT
 	// See largeForwardOpen above for why API must echo the requested RPI
 	// instead of zero. Same fix applies to the standard (small) Forward
 	// Open path because real Logix MSG instructions hit this code path for
@@ -771,23 +886,8 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
 		// this is a cyclic IO connection
-		tp, err := h.server.Router.Resolve(path)
-		if err != nil {
-			return fmt.Errorf("no tag provider for path %v", path)
-		}
 		go h.ioConnection(fwd_open, tp, cipConnection)
 	}
 
@@ -798,6 +898,7 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	rpi := time.Duration(fwd_open.TORPI) * time.Microsecond
 	h.server.Logger.Info("IO Connection", "rpi", rpi)
 	t := time.NewTicker(rpi)
+	defer t.Stop()
 	seq := uint32(0)
 
 	// get the address to send the response back to, trim off the port number, and add the eip udp port number (2222) back on.
@@ -816,7 +917,7 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	for {
 		seq++
 		<-t.C
-		if !conn.Open {
+		if !h.server.ConnMgr.isOpen(conn) {
 			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", *conn)
 			return
 
@@ -862,7 +963,7 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 func (h *serverTCPHandler) registerSession(hdr eipHeader) error {
 
 	reg_msg := msgCIPRegister{}
-	err := binary.Read(h.conn, binary.LittleEndian, &reg_msg)
+	err := binary.Read(h.body, binary.LittleEndian, &reg_msg)
 	if err != nil {
 		return fmt.Errorf("problem reading register session message. %w", err)
 	}
@@ -892,6 +993,9 @@ func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
 		size += binary.Size(msg)
 	}
 	// build header based on size
+	if size > math.MaxUint16 {
+		return fmt.Errorf("a message cannot hold %d bytes", size)
+	}
 	hdr := h.newEIPHeader(cmd, size)
 
 	// initialize a buffer and add the header to it.
@@ -960,10 +1064,17 @@ func (h *serverTCPHandler) sendListServicesData(hdr eipHeader) error {
 	response := listServicesReply{
 		Count:    1,
 		TypeCode: 0x0100,
-		Length:   10,
+		Length:   20, // version, flags and name
 		Version:  1,
 		CapFlags: ServiceCapabilityFlag_CipEncapsulation | ServiceCapabilityFlag_SupportsClass1UDP,
 		Name:     [16]byte{'C', 'o', 'm', 'm', 'u', 'n', 'i', 'c', 'a', 't', 'i', 'o', 'n', 's', ' ', ' '},
 	}
-	return h.send(cipCommandSendRRData, response)
+	return h.send(cipCommandListServices, response)
+}
+
+// sendUnsupportedCommand answers a command that the server does not know.
+func (h *serverTCPHandler) sendUnsupportedCommand(cmd CIPCommand) error {
+	hdr := h.newEIPHeader(cmd, 0)
+	hdr.Status = 1
+	return binary.Write(h.conn, binary.LittleEndian, hdr)
 }
diff --git a/server_connections.go b/server_connections.go
index 37cf22f..4aeb417 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"fmt"
 	"log/slog"
+	"math/rand"
 	"sync"
 	"time"
 )
@@ -14,6 +15,10 @@ type serverConnection struct {
 	RPI  time.Duration
 	Path []byte
 	Open bool
+
+	owner *serverTCPHandler // the handler whose peer opened it
+	triad msgConnectionTriad
+	io    bool
 }
 
 type serverConnectionManager struct {
@@ -30,6 +35,10 @@ func (cm *serverConnectionManager) Add(conn *serverConnection) {
 	cm.Logger.Info("New Managed Connection.", "conn", *conn)
 	cm.Lock.Lock()
 	defer cm.Lock.Unlock()
+	// the OT id is the target's choice, and no two connections can have the same.
+	for conn.OT == 0 || cm.hasOT(conn.OT) {
+		conn.OT = rand.Uint32()
+	}
 	cm.Connections = append(cm.Connections, conn)
 }
 func (cm *serverConnectionManager) GetByID(ID uint16) (*serverConnection, error) {
@@ -113,3 +122,59 @@ func (cm *serverConnectionManager) CloseByTO(TO uint32) error {
 	}
 	return fmt.Errorf("couldn't find connection %v by TO", TO)
 }
+
+// hasOT says whether there is an open connection with an OT id.
+func (cm *serverConnectionManager) hasOT(OT uint32) bool {
+	for _, conn := range cm.Connections {
+		if conn.OT == OT {
+			return true
+		}
+	}
+	return false
+}
+
+// isOpen says whether a connection has not been closed yet.
+func (cm *serverConnectionManager) isOpen(conn *serverConnection) bool {
+	cm.Lock.RLock()
+	defer cm.Lock.RUnlock()
+	return conn.Open
+}
+
+// closeBySerial closes the connection that the peer of a handler opened as triad.
+func (cm *serverConnectionManager) closeBySerial(owner *serverTCPHandler, triad msgConnectionTriad) error {
+	n := cm.closeIf(func(conn *serverConnection) bool {
+		return conn.triad == triad && (conn.owner == owner || conn.owner == nil)
+	})
+	if n == 0 {
+		return fmt.Errorf("couldn't find connection %+v", triad)
+	}
+	return nil
+}
+
+// closeAllOf closes the connections that end with the TCP connection of a handler. Those for IO, which don't
+// use it, stay open.
+func (cm *serverConnectionManager) closeAllOf(owner *serverTCPHandler) {
+	cm.closeIf(func(conn *serverConnection) bool {
+		if conn.owner != owner {
+			return false
+		}
+		conn.owner = nil
+		return !conn.io
+	})
+}
+
+func (cm *serverConnectionManager) closeIf(match func(*serverConnection) bool) int {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	rest := make([]*serverConnection, 0, len(cm.Connections))
+	for _, conn := range cm.Connections {
+		if match(conn) {
+			conn.Open = false
+			continue
+		}
+		rest = append(rest, conn)
+	}
+	n := len(cm.Connections) - len(rest)
+	cm.Connections = rest
+	return n
+}
-- 
2.43.0


From 8303463f319f6060189a56c663d5fd5ad69768c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 39/46] fix: server: the owner of a connection was read while
 another client's going away changed it

---
 server.go             | 2 +-
 server_connections.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 642c788..882d5e7 100644
--- a/server.go
+++ b/server.go
@@ -311,7 +311,7 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 		return fmt.Errorf("problem deserializing service %w", err)
 	}
 	conn, err := h.server.ConnMgr.GetByOT(connId)
-	if err != nil || conn.owner != h {
+	if err != nil || !h.server.ConnMgr.isOwner(h, conn) {
 		h.server.Logger.Warn("request on a connection that is not open", "connection", connId)
 		h.TOConnectionID = 0
 		return h.sendUnitDataErrorReply(service, CIPStatus_ConnectionLost)
diff --git a/server_connections.go b/server_connections.go
index 4aeb417..620ac0e 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -140,6 +140,13 @@ func (cm *serverConnectionManager) isOpen(conn *serverConnection) bool {
 	return conn.Open
 }
 
+// isOwner says whether the peer of a handler opened a connection.
+func (cm *serverConnectionManager) isOwner(h *serverTCPHandler, conn *serverConnection) bool {
+	cm.Lock.RLock()
+	defer cm.Lock.RUnlock()
+	return conn.owner == h
+}
+
 // closeBySerial closes the connection that the peer of a handler opened as triad.
 func (cm *serverConnectionManager) closeBySerial(owner *serverTCPHandler, triad msgConnectionTriad) error {
 	n := cm.closeIf(func(conn *serverConnection) bool {
-- 
2.43.0


From 6c7d98366557b934e0e7c2314feaa624bb70b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:37 +0000
Subject: [PATCH 40/46] fix: server: a symbol list ignored the requested class,
 start instance, attributes and connection size and reordered the endpoint's
 own list

---
 server.go             | 62 ++++++++++++++++++++++++++++++++++++++++---
 server_connections.go |  1 +
 server_unconnected.go | 54 +++++++++++++++++++++++++++----------
 3 files changed, 100 insertions(+), 17 deletions(-)

diff --git a/server.go b/server.go
index 882d5e7..9b44848 100644
--- a/server.go
+++ b/server.go
@@ -479,9 +479,11 @@ func (h *serverTCPHandler) connectedGetAttributeAll(items []CIPItem) error {
 //	[path bytes: 0x20 0x6b 0x25 0x00 <start_instance u16>]
 //	[num_attrs u16] [attr u16] ... (typically 2: Symbol Name + Symbol Type)
 //
-// The response is a list of {InstanceID u32, NameLen u16, Name bytes, Type u16}
+// The response has each instance's id and the requested attributes in the requested
+// order, for example {InstanceID u32, NameLen u16, Name bytes, Type u16}
 // triplets — the standard Logix wire format that pycomm3.LogixDriver
-// expects in its _get_symbols_from_controller() loop.
+// expects in its _get_symbols_from_controller() loop. What does not fit the
+// connection is left for the next request, and the status is PartialTransfer.
 func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 	items[0].Reset()
 	var connID uint32
@@ -496,6 +498,10 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("symbol list: provider lookup: %w", err)
 	}
+	instance, attributes, err := readSymbolListRequest(&items[1])
+	if err != nil {
+		return err
+	}
 
 	// Type-assert to the optional TagLister interface. A provider that
 	// doesn't implement it can still serve point reads/writes but will
@@ -507,21 +513,69 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 		return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, nil)
 	}
 
-	payload := buildSymbolObjectInstanceListResponse(lister.TagList(), 0)
+	payload, more, err := buildSymbolObjectInstanceListResponse(lister.TagList(), uint32(instance), attributes, conn.size-symbolListOverhead)
+	if err != nil {
+		return err
+	}
+	if more {
+		return h.sendUnitDataStatusReply(CIPService_GetInstanceAttributeList, CIPStatus_PartialTransfer, payload)
+	}
 	return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, payload)
 }
 
+// readSymbolListRequest reads the instance that a symbol list starts at and the attributes it is to have.
+func readSymbolListRequest(item *CIPItem) (CIPInstance, []uint16, error) {
+	item.Reset()
+	var head struct {
+		SequenceCount uint16
+		Service       CIPService
+		PathLength    byte
+	}
+	if err := item.DeSerialize(&head); err != nil {
+		return 0, nil, fmt.Errorf("symbol list: header: %w", err)
+	}
+	path := make([]byte, int(head.PathLength)*2)
+	if err := item.DeSerialize(&path); err != nil {
+		return 0, nil, fmt.Errorf("symbol list: path: %w", err)
+	}
+	rest := bytes.NewBuffer(path)
+	class, instance, err := parseClassInstancePath(rest)
+	if err != nil || rest.Len() > 0 {
+		return 0, nil, fmt.Errorf("symbol list: %w: %v", CIPStatusError{Status: CIPStatus_PathSegmentError}, path)
+	}
+	if class != CIPClass(CipObject_Symbol) {
+		return 0, nil, fmt.Errorf("symbol list: %w: class %v", CIPStatusError{Status: CIPStatus_PathDestinationUnknown}, class)
+	}
+	count, err := item.Uint16()
+	if err != nil {
+		return 0, nil, fmt.Errorf("symbol list: attribute count: %w", err)
+	}
+	if int(count)*2 > len(item.Rest()) {
+		return 0, nil, fmt.Errorf("symbol list: %w", CIPStatusError{Status: CIPStatus_NotEnoughData})
+	}
+	attributes := make([]uint16, count)
+	if err := item.DeSerialize(&attributes); err != nil {
+		return 0, nil, fmt.Errorf("symbol list: attributes: %w", err)
+	}
+	return instance, attributes, nil
+}
+
 // sendUnitDataReplyWithPayload is sendUnitDataReply with an additional
 // raw payload appended after the standard write-result header. Used by
 // the connected Get_Attributes_All handler to ship the Identity /
 // Program Object attribute bytes back to the client.
 func (h *serverTCPHandler) sendUnitDataReplyWithPayload(s CIPService, payload []byte) error {
+	return h.sendUnitDataStatusReply(s, CIPStatus_OK, payload)
+}
+
+func (h *serverTCPHandler) sendUnitDataStatusReply(s CIPService, status CIPStatus, payload []byte) error {
 	items := make([]CIPItem, 2)
 	items[0] = newItem(cipItem_ConnectionAddress, h.TOConnectionID)
 	items[1] = newItem(cipItem_ConnectedData, nil)
 	resp := msgWriteResultHeader{
 		SequenceCount: h.UnitDataSequencer,
 		Service:       s.AsResponse(),
+		Status:        status,
 	}
 	if err := items[1].Serialize(resp); err != nil {
 		return fmt.Errorf("serialize connected reply header: %w", err)
@@ -751,6 +805,7 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		Path: path,
 		Open: true,
 
+		size:  int(fwd_open.TONetworkConnParams & 0xFFFF),
 		owner: h,
 		triad: triad,
 		io:    fwd_open.TransportTrigger == 1,
@@ -849,6 +904,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		Path: path,
 		Open: true,
 
+		size:  int(fwd_open.TONetworkConnParams & 0x1FF),
 		owner: h,
 		triad: triad,
 		io:    fwd_open.TransportTrigger == 1,
diff --git a/server_connections.go b/server_connections.go
index 620ac0e..b2f9d32 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -16,6 +16,7 @@ type serverConnection struct {
 	Path []byte
 	Open bool
 
+	size  int               // most bytes of a message to the peer, with its sequence count
 	owner *serverTCPHandler // the handler whose peer opened it
 	triad msgConnectionTriad
 	io    bool
diff --git a/server_unconnected.go b/server_unconnected.go
index 0183069..bcf1615 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -242,12 +242,11 @@ func (h *serverTCPHandler) unconnectedGetAttributeAll(item CIPItem) error {
 // these IDs for subsequent reads.
 //
 // startInstance lets callers iterate when the response would exceed the
-// transport limit (~500 bytes). For now Server_Class3 exposes only a
-// handful of tags so we emit everything in one reply, but the loop is
-// written so a future paginator can drop in without restructuring.
-func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance uint32) []byte {
+// transport limit: no more than limit bytes are returned (but at least one
+// instance), and whether there are more instances after them.
+func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance uint32, attributes []uint16, limit int) ([]byte, bool, error) {
 	// Stable ordering keeps instance IDs deterministic across reads.
-	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
+	tags = sortedTags(tags)
 
 	var buf bytes.Buffer
 	for i, tag := range tags {
@@ -255,16 +254,44 @@ func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance u
 		if instanceID < startInstance {
 			continue
 		}
+		before := buf.Len()
 		_ = binary.Write(&buf, binary.LittleEndian, instanceID)
-		name := tag.Name
-		if len(name) > 255 {
-			name = name[:255]
+		for _, attribute := range attributes {
+			switch attribute {
+			case 1: // symbol name
+				name := tag.Name
+				if len(name) > 255 {
+					name = name[:255]
+				}
+				_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
+				buf.WriteString(name)
+			case 2: // symbol type
+				_ = binary.Write(&buf, binary.LittleEndian, uint16(tag.Type))
+			case 3, 5, 6: // symbol address, symbol object address and software control
+				buf.Write(make([]byte, 4))
+			case 8: // array dimensions
+				buf.Write(make([]byte, 12))
+			case 10: // external access: read and write
+				buf.WriteByte(0)
+			default:
+				return nil, false, fmt.Errorf("%w: symbol attribute %d", CIPStatusError{Status: CIPStatus_AttributeNotSupported}, attribute)
+			}
+		}
+		if buf.Len() > limit && before > 0 {
+			return buf.Bytes()[:before], true, nil
 		}
-		_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
-		buf.WriteString(name)
-		_ = binary.Write(&buf, binary.LittleEndian, uint16(tag.Type))
 	}
-	return buf.Bytes()
+	return buf.Bytes(), false, nil
+}
+
+// symbolListOverhead is what the sequence count and the reply header take of a connection's size.
+const symbolListOverhead = 6
+
+// sortedTags returns the tags in the order of their names and leaves the provider's own list as it is.
+func sortedTags(tags []ServerTagInfo) []ServerTagInfo {
+	tags = append([]ServerTagInfo(nil), tags...)
+	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
+	return tags
 }
 
 // buildProgramObjectGetAttributesAllResponse renders the payload for
@@ -578,8 +605,7 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 	if !ok {
 		return "", false
 	}
-	tags := lister.TagList()
-	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
+	tags := sortedTags(lister.TagList())
 	if instance == 0 || int(instance) > len(tags) {
 		return "", false
 	}
-- 
2.43.0


From 10895695ae6576dd43c8fe9f044a13a7240be4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:25 +0000
Subject: [PATCH 41/46] fix: nil, unexported, empty or oversized arguments of
 reads and writes panicked or were reported as done; mismatched lists and a
 missing group or program panicked

---
 listsubtags.go      |  4 ++++
 pack.go             | 19 ++++++++++++++++++-
 partialread.go      |  3 +++
 read.go             | 13 +++++++++++++
 taggroup_readmap.go |  8 +++++++-
 udt_write.go        |  3 +++
 write.go            |  3 +++
 7 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/listsubtags.go b/listsubtags.go
index 706f9af..5f463ae 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"math"
 	"strings"
@@ -15,6 +16,9 @@ import (
 // also see https://forums.mrclient.com/index.php?/topic/40626-reading-and-writing-io-tags-in-plc/
 func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
 
+	if Program == nil {
+		return nil, errors.New("no program to list the tags of")
+	}
 	// have to start at 1.
 	if start_instance == 0 {
 		start_instance = 1
diff --git a/pack.go b/pack.go
index 28aa7ab..726d0c2 100644
--- a/pack.go
+++ b/pack.go
@@ -185,6 +185,9 @@ func Pack(w io.Writer, data any) (int, error) {
 	// start reflecting and loop through the fields of the struct
 	refType := reflect.TypeOf(data)
 	refVal := reflect.ValueOf(data)
+	if refVal.Kind() != reflect.Struct {
+		return 0, fmt.Errorf("cannot pack a %T", data)
+	}
 	for i := 0; i < refType.NumField(); i++ {
 		field := refType.Field(i)
 		a := p.Align(field.Type)
@@ -275,6 +278,9 @@ func Pack(w io.Writer, data any) (int, error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
+		if !field.IsExported() {
+			return pos, fmt.Errorf("cannot pack unexported field %s of a %v", field.Name, refType)
+		}
 		if p.isStructArray(field.Type) {
 			var err error
 			s, err = p.packArray(w, refVal.Field(i))
@@ -344,6 +350,9 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 	if refVal.Kind() == reflect.Ptr {
 		refVal = reflect.ValueOf(data).Elem()
 	}
+	if !refVal.IsValid() {
+		return 0, fmt.Errorf("cannot unpack into a nil %T", data)
+	}
 
 	refType := refVal.Type()
 	k := refType.Kind()
@@ -369,13 +378,18 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		return n, nil
 
 	case reflect.Struct:
-		// continue on
+		if !refVal.CanSet() {
+			return 0, fmt.Errorf("cannot unpack into a %v: need a pointer to it", refType)
+		}
 
 	default:
 		return 0, fmt.Errorf("cannot unpack into a %v", refType)
 	}
 	for i := 0; i < refType.NumField(); i++ {
 		field := refType.Field(i)
+		if !field.IsExported() {
+			return n, fmt.Errorf("cannot unpack into unexported field %s of a %v", field.Name, refType)
+		}
 		a := p.Align(field.Type)
 		t := field.Tag.Get("pack")
 		s := int(field.Type.Size())
@@ -523,6 +537,9 @@ func TypeEncode(data any) (string, uint16, error) {
 	// start reflecting and loop through the fields of the struct
 	refType := reflect.TypeOf(data)
 	refVal := reflect.ValueOf(data)
+	if refVal.Kind() != reflect.Struct {
+		return "", 0, fmt.Errorf("a %T has no structure type", data)
+	}
 
 	// start with the structure name
 	encoded = refType.Name()
diff --git a/partialread.go b/partialread.go
index 3d923f7..6507510 100644
--- a/partialread.go
+++ b/partialread.go
@@ -54,6 +54,9 @@ func (client *Client) ReadList(tagnames []string, types []any, elements []int) (
 	n := 0
 	n_new := 0
 	total := len(tagnames)
+	if len(types) != total || len(elements) != total {
+		return nil, fmt.Errorf("got %d types and %d element counts for %d tags", len(types), len(elements), total)
+	}
 	results := make([]any, 0, total)
 	msgs := 0
 
diff --git a/read.go b/read.go
index 176d579..b2c19ca 100644
--- a/read.go
+++ b/read.go
@@ -42,6 +42,19 @@ func (client *Client) Read(tag string, data any) error {
 	if err != nil {
 		return fmt.Errorf("could not start read: %w", err)
 	}
+	switch v := reflect.ValueOf(data); v.Kind() {
+	case reflect.Pointer:
+		if v.IsNil() {
+			return fmt.Errorf("cannot read %s into a nil %T", tag, data)
+		}
+		if v.Elem().Kind() == reflect.Slice && v.Elem().Len() == 0 {
+			return fmt.Errorf("cannot read %s into an empty %v", tag, v.Elem().Type())
+		}
+	case reflect.Slice:
+		if v.Len() > math.MaxUint16 {
+			return fmt.Errorf("cannot read %d elements of %s", v.Len(), tag)
+		}
+	}
 	switch data := data.(type) {
 	case *bool:
 		v, err := read[bool](client, tag)
diff --git a/taggroup_readmap.go b/taggroup_readmap.go
index 8db5a3c..f030a11 100644
--- a/taggroup_readmap.go
+++ b/taggroup_readmap.go
@@ -1,6 +1,9 @@
 package gologix
 
-import "fmt"
+import (
+	"errors"
+	"fmt"
+)
 
 // ReadTagGroup reads all tags defined in the TagGroup in a single network
 // call (or the minimum number of calls if tags exceed the connection size
@@ -24,6 +27,9 @@ func (client *Client) ReadTagGroup(group *TagGroup, args ...any) (*TagGroupResul
 		return nil, fmt.Errorf("could not start tag group read: %w", err)
 	}
 
+	if group == nil {
+		return nil, errors.New("no tag group to read")
+	}
 	m := make(map[string]any, len(group.defs))
 
 	for _, def := range group.defs {
diff --git a/udt_write.go b/udt_write.go
index 5c5fcbe..8cb6914 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -189,6 +189,9 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 
 // newWriteRequest builds the request to write one tag, as it is embedded in a multiple service request.
 func (client *Client) newWriteRequest(tag string, value any) ([]byte, error) {
+	if v := reflect.ValueOf(value); v.Kind() == reflect.Pointer && v.IsNil() {
+		return nil, fmt.Errorf("nil %T", value)
+	}
 	if err := checkStringLength(value); err != nil {
 		return nil, err
 	}
diff --git a/write.go b/write.go
index f6e6a1f..6e51ac3 100644
--- a/write.go
+++ b/write.go
@@ -248,6 +248,9 @@ func checkStringLength(value any) error {
 
 // write a single value to a single tag.
 func (client *Client) write_single(tag string, value any) error {
+	if v := reflect.ValueOf(value); v.Kind() == reflect.Pointer && v.IsNil() {
+		return fmt.Errorf("cannot write a nil %T to %s", value, tag)
+	}
 	if err := checkStringLength(value); err != nil {
 		return fmt.Errorf("cannot write %s: %w", tag, err)
 	}
-- 
2.43.0


From 9c83896f7beb84c7a0b0b3c1886e0b1b210a410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 42/46] fix: canned: the fault T17:C34 was listed as T17:C32
 and described as T17:C31

---
 canned/fault_descriptions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/canned/fault_descriptions.go b/canned/fault_descriptions.go
index 29ef8a4..e007535 100644
--- a/canned/fault_descriptions.go
+++ b/canned/fault_descriptions.go
@@ -1445,9 +1445,9 @@ var FaultDescriptions = map[int]map[int]FaultDescription{
 			Major:            false,
 			TypeName:         "Diagnostic",
 		},
-		32: {
+		34: {
 			Type:             17,
-			Code:             31,
+			Code:             34,
 			Display:          "Major Fault T17:C34 - Diagnostic Fault: Controller internal temperature has exceeded operating limit.",
 			Description:      "Controller internal temperature has exceeded the operating limit.",
 			CorrectiveAction: "Take measures to reduce the ambient temperature of the module. Follow the recommended limits for the ambient (inlet) temperature and apply the required clearance around the chassis.",
-- 
2.43.0


From e02bea375d30929ecf800a25306dad5bae14d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:22 +0000
Subject: [PATCH 43/46] fix: Pack panicked on a nil pointer or interface field

---
 pack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pack.go b/pack.go
index 726d0c2..cbaf995 100644
--- a/pack.go
+++ b/pack.go
@@ -281,6 +281,9 @@ func Pack(w io.Writer, data any) (int, error) {
 		if !field.IsExported() {
 			return pos, fmt.Errorf("cannot pack unexported field %s of a %v", field.Name, refType)
 		}
+		if (k == reflect.Ptr || k == reflect.Interface) && refVal.Field(i).IsNil() {
+			return pos, fmt.Errorf("cannot pack nil field %s of a %v", field.Name, refType)
+		}
 		if p.isStructArray(field.Type) {
 			var err error
 			s, err = p.packArray(w, refVal.Field(i))
-- 
2.43.0


From a83c9b8fd217e288bb173ba3adefbb981c5b1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:03 +0000
Subject: [PATCH 44/46] fix: a slice of more than 65535 bools could not be read
 any more

---
 read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index b2c19ca..558a6c0 100644
--- a/read.go
+++ b/read.go
@@ -51,7 +51,11 @@ func (client *Client) Read(tag string, data any) error {
 			return fmt.Errorf("cannot read %s into an empty %v", tag, v.Elem().Type())
 		}
 	case reflect.Slice:
-		if v.Len() > math.MaxUint16 {
+		elements := v.Len()
+		if v.Type().Elem().Kind() == reflect.Bool {
+			elements /= 32 // they are read as words
+		}
+		if elements > math.MaxUint16 {
 			return fmt.Errorf("cannot read %d elements of %s", v.Len(), tag)
 		}
 	}
-- 
2.43.0


From ce771e7898ea02e5dee720747cf390c5412c519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:28 +0000
Subject: [PATCH 45/46] fix: l5x: the descriptions of program tags were read
 and thrown away

---
 l5x/load_tags.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index 9587e87..fb31c2f 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -122,7 +122,6 @@ func memberValue(datatype string, value *DataValue) (any, error) {
 }
 
 func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
-	var err error
 	tags := make(map[string]string)
 	if l5xData == nil || l5xData.Controller == nil {
 		return tags, nil
@@ -208,22 +207,16 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	}
 	for _, program := range programs {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
-		progtags := make(map[string]any)
 		if program.Tags == nil {
 			continue
 		}
 		for _, tag := range program.Tags.Tag {
-			tagname := tag.NameAttr
-			if len(tag.Description) > 1 {
+			if len(tag.Description) > 0 {
 				comment := ""
 				for d := range tag.Description {
 					comment = comment + tag.Description[d].CData()
 				}
-				progtags[tagname] = comment
-				if err != nil {
-					return nil, fmt.Errorf("error converting %s.%s: %s", progprefix, tagname, err)
-				}
-				continue
+				tags[fmt.Sprintf("%s.%s", progprefix, tag.NameAttr)] = comment
 			}
 		}
 	}
-- 
2.43.0


From 55d26801a3ba5333c9a864ecbd90f7212456cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:45 +0000
Subject: [PATCH 46/46] fix: a cut array of structures with 64 bit members was
 decoded at the wrong stride

---
 read.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 558a6c0..69a84c3 100644
--- a/read.go
+++ b/read.go
@@ -382,8 +382,12 @@ func (client *Client) Read(tag string, data any) error {
 		size := 0
 		if elements > 0 {
 			size = len(dat) / int(elements)
-			// structures take a whole number of 32 bit words.
-			if len(dat)%int(elements) != 0 || size%4 != 0 {
+			// structures take a whole number of 32 bit words, or of what their members are aligned to.
+			align := 4
+			if _, ok := v.Index(0).Addr().Interface().(Unpackable); !ok && v.Type().Elem().Kind() == reflect.Struct {
+				align = max(align, cipPack{}.Align(v.Type().Elem()))
+			}
+			if len(dat)%int(elements) != 0 || size%align != 0 {
 				return fmt.Errorf("%d bytes are not %d structures", len(dat), elements)
 			}
 		}
-- 
2.43.0


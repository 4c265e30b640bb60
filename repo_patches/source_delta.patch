From f410df342bb875282137b73dd2ef2716de995b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:25 +0000
Subject: [PATCH 01/26] fix: page operations check the page number on both
 sides and RemoveOtherPages keeps the page asked for

---
 pdft.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pdft.go b/pdft.go
index ebbb481..67f9736 100644
--- a/pdft.go
+++ b/pdft.go
@@ -121,7 +121,13 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
+		return ErrNoDesiredPageToCopy
+	}
+	if position < 0 {
+		position = len(pageObjIds) + position // like python
+	}
+	if position < 0 || position >= len(pageObjIds) {
 		return ErrNoDesiredPageToCopy
 	}
 
@@ -145,9 +151,6 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 
 	pageID := i.pdf.putNewObject(pageObj)
 
-	if position < 0 {
-		position = len(pageObjIds) + position // like python
-	}
 	pageObjIds = append(pageObjIds, 0)
 	copy(pageObjIds[position+1:], pageObjIds[position:])
 	pageObjIds[position+1] = pageID
@@ -161,7 +164,7 @@ func (i *PDFt) RemovePage(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToRemove
 	}
 	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
@@ -176,11 +179,11 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToKeep
 	}
 
-	return i.setPages([]int{pageObjIds[targetPageNumber]})
+	return i.setPages([]int{pageObjIds[targetPageNumber-1]})
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-- 
2.43.0


From 5552522435886bfe8cf305008da9e16d9ff8a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:40 +0000
Subject: [PATCH 02/26] fix: a page without its own MediaBox no longer crashes
 Open; the box is inherited from the page tree

---
 pdf_parse.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/pdf_parse.go b/pdf_parse.go
index d5d314a..c6d6aad 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -53,11 +53,13 @@ func parsePageSize(pdf *PDFData) error {
 	}
 
 	for n, pageID := range pageIDs {
-		data := pdf.getObjByID(pageID).data
-		propContentsObj, err := readProperty(&data, "MediaBox")
+		propContentsObj, err := mediaBoxOf(pdf, pageID)
 		if err != nil {
 			return err
 		}
+		if propContentsObj == nil {
+			continue
+		}
 		valType := propContentsObj.valType()
 		if valType != array {
 			fmt.Printf("MediaBox type is not array, but %s", valType)
@@ -67,11 +69,38 @@ func parsePageSize(pdf *PDFData) error {
 		if err != nil {
 			return err
 		}
+		if len(parseMediaBoxd) < 4 {
+			continue
+		}
 		pdf.pageSizes[n] = parseMediaBoxd
 	}
 	return nil
 }
 
+// mediaBoxOf finds the MediaBox of a page, which may be inherited from a parent
+// node of the page tree. It returns nil when there is none.
+func mediaBoxOf(pdf *PDFData, objID int) (*PDFObjPropertyData, error) {
+	for depth := 0; depth <= pdf.Len(); depth++ {
+		obj := pdf.getObjByID(objID)
+		if obj == nil {
+			return nil, nil
+		}
+		prop, err := readProperty(&obj.data, "MediaBox")
+		if err != nil || prop != nil {
+			return prop, err
+		}
+		parent, err := readProperty(&obj.data, "Parent")
+		if err != nil || parent == nil {
+			return nil, err
+		}
+		objID, _, err = parent.asDictionary()
+		if err != nil {
+			return nil, err
+		}
+	}
+	return nil, nil
+}
+
 func parseFloatSlice(s string) ([]float64, error) {
 	// ตัด [] ออก
 	s = strings.TrimSpace(s)
-- 
2.43.0


From 5d8d6ab5aaff61160f0443eea11dc45c747e481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:44 +0000
Subject: [PATCH 03/26] fix: page sizes follow the pages when pages are removed
 or duplicated

---
 pdft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index 67f9736..4b8ae0a 100644
--- a/pdft.go
+++ b/pdft.go
@@ -204,7 +204,7 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
 	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
 	pagesObj.setProperties(props)
-	return nil
+	return parsePageSize(&i.pdf)
 }
 
 // GetNumberOfPage get number of page
-- 
2.43.0


From 53bfe2c60f6785ca906806fbdade10b43f650358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:08 +0000
Subject: [PATCH 04/26] fix: SetProtection no longer writes the password
 padding into the caller's slices

---
 minigopdf/pdf_protection.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 5fa588b..3ee7c4e 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -50,10 +50,8 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	userPassWithPadding := padPassword(userPass)
+	ownerPassWithPadding := padPassword(ownerPass)
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
@@ -72,6 +70,14 @@ func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte,
 	return nil
 }
 
+// padPassword pads or truncates a password to 32 bytes without writing to the caller's array
+func padPassword(pass []byte) []byte {
+	padded := make([]byte, 0, len(pass)+len(protectionPadding))
+	padded = append(padded, pass...)
+	padded = append(padded, protectionPadding...)
+	return padded[0:32]
+}
+
 // EncryptionObj get Encryption Object
 func (p *PDFProtection) EncryptionObj() *EncryptionObj {
 	return p.encryptionObj()
-- 
2.43.0


From d1e09b432ac873d4fa33076853f2772df85ded95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:31 +0000
Subject: [PATCH 05/26] fix: encryption keeps the stream data byte for byte
 instead of trimming line ends off it

---
 pdf_obj_data.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 719a34a..d747d88 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"crypto/rc4"
 	"errors"
+	"strconv"
+	"strings"
 
 	gopdf "github.com/signintech/pdft/minigopdf"
 )
@@ -69,14 +71,17 @@ func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
 	stream := []byte("stream")
 	endstream := []byte("endstream")
 	start := bytes.Index(p.data, stream)
-	if start != -1 {
-		end := bytes.LastIndex(p.data, endstream)
-
-		var head, body bytes.Buffer
+	end := bytes.LastIndex(p.data, endstream)
+	if start != -1 && end >= start+len(stream) {
+		var head bytes.Buffer
 		head.Write(p.data[0:start])
-		body.Write(p.data[start+len(stream) : end])
-		tmp := bytes.Trim(body.Bytes(), "\r\n")
-		tmp = bytes.Trim(tmp, "\n")
+		tmp := trimStreamEOL(p.data[start+len(stream) : end])
+		if prop, err := readProperty(&p.data, "Length"); err == nil && prop != nil && prop.valType() == number {
+			length, err := strconv.Atoi(strings.TrimSpace(prop.rawVal))
+			if err == nil && length >= 0 && length <= len(tmp) {
+				tmp = tmp[0:length] // what follows is the EOL before endstream
+			}
+		}
 		bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), tmp)
 		if err != nil {
 			return err
@@ -94,6 +99,16 @@ func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
 	return nil
 }
 
+// trimStreamEOL drops the end-of-line marker that follows the keyword stream
+func trimStreamEOL(b []byte) []byte {
+	if bytes.HasPrefix(b, []byte("\r\n")) {
+		return b[2:]
+	} else if bytes.HasPrefix(b, []byte("\n")) || bytes.HasPrefix(b, []byte("\r")) {
+		return b[1:]
+	}
+	return b
+}
+
 func rc4Cip(key []byte, src []byte) ([]byte, error) {
 	cip, err := rc4.NewCipher(key)
 	if err != nil {
-- 
2.43.0


From 7fe75100acdb9650c889d5fc96ffa798a9bbe6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:44 +0000
Subject: [PATCH 06/26] fix: stream data is taken exactly as /Length says,
 white space at its start is part of it

---
 pdf_data.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index e0339ca..a544267 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -547,9 +547,14 @@ var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 
 	index := bytes.Index(*b, extractStreamBytes)
+	if index == -1 {
+		return nil, errors.New("stream not found")
+	}
 	offset := len(extractStreamBytes)
-	tmp := (*b)[index+offset:]
-	tmp = bytes.TrimSpace(tmp)
+	tmp := trimStreamEOL((*b)[index+offset:])
+	if length < 0 || length > len(tmp) {
+		return nil, errors.New("stream is shorter than /Length")
+	}
 	tmp = tmp[0:length]
 	var buff bytes.Buffer
 	buff.Write(tmp)
-- 
2.43.0


From ffa36ea1f41565c946435ef835f90ad0fcaa9774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:07 +0000
Subject: [PATCH 07/26] fix: text colour no longer lost when the components add
 up to 256 or the colour is black

---
 content_text.go                 | 4 ++--
 minigopdf/cache_content_text.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content_text.go b/content_text.go
index e236813..67ce1b7 100644
--- a/content_text.go
+++ b/content_text.go
@@ -47,11 +47,11 @@ func (c *ContentText) toSteram() (*bytes.Buffer, error) {
 	}
 
 	var rgb gopdf.Rgb
-	if c.fontColor != nil {
+	if c.fontColor != nil && *c.fontColor != (FontColor{}) {
 		rgb.SetR(uint8(c.fontColor.R))
 		rgb.SetG(uint8(c.fontColor.G))
 		rgb.SetB(uint8(c.fontColor.B))
-	} else {
+	} else { // black, written out so that the colour of earlier content does not show
 		rgb.SetR(1)
 		rgb.SetG(1)
 		rgb.SetB(1)
diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 0da146c..6989485 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -129,7 +129,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
-	if r+g+b != 0 {
+	if r != 0 || g != 0 || b != 0 {
 		rFloat := float64(r) * 0.00392156862745
 		gFloat := float64(g) * 0.00392156862745
 		bFloat := float64(b) * 0.00392156862745
-- 
2.43.0


From 040633b98d605b0a7135804ae219217d0eb95dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:11 +0000
Subject: [PATCH 08/26] fix: last character of a format 12 cmap group is found

---
 minigopdf/subset_font_obj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 284706e..1bc87be 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -186,7 +186,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat12(r rune) (uint, error) {
 	value := uint(r)
 	gTbs := s.ttfp.GroupingTables()
 	for _, gTb := range gTbs {
-		if value >= gTb.StartCharCode && value < gTb.EndCharCode {
+		if value >= gTb.StartCharCode && value <= gTb.EndCharCode {
 			gIndex := (value - gTb.StartCharCode) + gTb.GlyphID
 			return gIndex, nil
 		}
-- 
2.43.0


From 03beabb05805c02cad6d2454f35efb879d77e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:38 +0000
Subject: [PATCH 09/26] fix: two characters with the same glyph no longer drop
 the later glyphs from the embedded font

---
 minigopdf/pdf_dictionary_obj.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index c31501b..19b21c9 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -255,7 +255,12 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	//copy
 	isContainZero := false
 	glyphs := mapOfglyphs.AllVals()
+	seen := make(map[uint]bool) //characters may share a glyph
 	for _, v := range glyphs {
+		if seen[v] {
+			continue
+		}
+		seen[v] = true
 		glyphArray = append(glyphArray, int(v))
 		if v == 0 {
 			isContainZero = true
-- 
2.43.0


From a6bbaea7d1eaf9e7771e4bab70d75513b7428f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:43 +0000
Subject: [PATCH 10/26] fix: components of composite glyphs are embedded at
 every level of nesting

---
 minigopdf/pdf_dictionary_obj.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 19b21c9..53e4cbe 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -271,8 +271,7 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	}
 
 	i := 0
-	count := len(glyphs)
-	for i < count {
+	for i < len(glyphArray) { //grows as components, which may be composite themselves, are added
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
 		i++
 	}
-- 
2.43.0


From e340146b1697adb34ab8645190ef5a1677334c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:47 +0000
Subject: [PATCH 11/26] fix: ToUnicode entries above U+FFFF are written as
 UTF-16 surrogate pairs

---
 minigopdf/unicode_map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 4068711..bc7fa84 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"bytes"
 	"fmt"
+	"unicode/utf16"
 )
 
 // UnicodeMap unicode map
@@ -85,6 +86,11 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
+		if v > 0xFFFF { //UTF-16 surrogate pair
+			hi, lo := utf16.EncodeRune(v)
+			buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X%04X>\n", k, k, hi, lo))
+			continue
+		}
 		buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X>\n", k, k, v))
 	}
 	buff.WriteString("endbfrange\n")
-- 
2.43.0


From 8af0b04cc33f2a2181687ef12defb598826827a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:07 +0000
Subject: [PATCH 12/26] fix: PNG chunks and sizes of 32768 and more are read,
 and a truncated PNG is an error

---
 minigopdf/image_obj_parse.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index e230ff5..f63d357 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"io"
 	"io/ioutil"
 	"strings"
 )
@@ -416,18 +417,15 @@ func readInt(f *bytes.Reader) (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	var v int
-	if u >= 0x8000 {
-		v = int(u) - 65536
-	} else {
-		v = int(u)
-	}
-	return v, nil
+	return int(u), nil
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 965822a583902122642098cd5638dc20430b11bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:44 +0000
Subject: [PATCH 13/26] fix: gray images with alpha keep their pixels and
 transparency

---
 minigopdf/image_obj_parse.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index f63d357..4acfac4 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -368,15 +368,15 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 				i++
 			}
-			info.smask, err = compress(alpha)
-			if err != nil {
-				return err
-			}
+		}
+		info.smask, err = compress(alpha)
+		if err != nil {
+			return err
+		}
 
-			info.data, err = compress(color)
-			if err != nil {
-				return err
-			}
+		info.data, err = compress(color)
+		if err != nil {
+			return err
 		}
 
 	} else {
-- 
2.43.0


From e6c53a85299b923932eee693a1227b7838449e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:49 +0000
Subject: [PATCH 14/26] fix: a PNG with a short tRNS chunk or too little pixel
 data is an error, not a crash

---
 minigopdf/image_obj_parse.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 4acfac4..18a8a25 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -249,7 +249,9 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
-			if ct[0] == 0 {
+			if (ct[0] == 0 && n < 2) || (ct[0] == 2 && n < 6) {
+				return errors.New("Incorrect tRNS chunk")
+			} else if ct[0] == 0 {
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
 				trns = []byte{t[1], t[3], t[5]}
@@ -331,6 +333,9 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		if ct[0] == 4 {
 			// Gray image
 			length := 2 * w
+			if len(afterZipData) < (1+length)*h {
+				return errors.New("Not enough image data")
+			}
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -352,6 +357,9 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		} else {
 			// RGB image
 			length := 4 * w
+			if len(afterZipData) < (1+length)*h {
+				return errors.New("Not enough image data")
+			}
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
-- 
2.43.0


From b8a4509d5a5333ba789e9912fb3a64baa2a438c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:12 +0000
Subject: [PATCH 15/26] fix: the palette of an Indexed PNG is written, errors
 of building an image are returned

---
 minigopdf/image_obj.go | 17 +++++++++++++++++
 pdft.go                | 22 ++++++++++++++++++++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 7873b7e..d511c1b 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -97,6 +97,23 @@ func (i *ImageObj) createSMask() (*SMask, error) {
 	return &smk, nil
 }
 
+// PaletteBuffer body of the palette object an Indexed image refers to, nil for other images
+func (i *ImageObj) PaletteBuffer() *bytes.Buffer {
+	if !i.isColspaceIndexed() {
+		return nil
+	}
+	var buff bytes.Buffer
+	buff.WriteString(fmt.Sprintf("<<\n/Length %d\n>>\nstream\n", len(i.imginfo.pal)))
+	buff.Write(i.imginfo.pal)
+	buff.WriteString("\nendstream\n")
+	return &buff
+}
+
+// SetPaletteObjID set objId of the palette
+func (i *ImageObj) SetPaletteObjID(objID int) {
+	i.imginfo.deviceRGBObjID = objID - 1
+}
+
 func (i *ImageObj) createDeviceRGB() (*DeviceRGBObj, error) {
 	var dRGB DeviceRGBObj
 	dRGB.data = i.imginfo.pal
diff --git a/pdft.go b/pdft.go
index 4b8ae0a..9f01d33 100644
--- a/pdft.go
+++ b/pdft.go
@@ -367,6 +367,7 @@ func (i *PDFt) InsertImgBase64(base64str string, pageNum int, x float64, y float
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
 
+	i.putPalette(&imgObj)
 	err = pdfimg.setImgObj(imgObj)
 	if err != nil {
 		return err
@@ -413,7 +414,11 @@ func (i *PDFt) InsertImg(img []byte, pageNum int, x float64, y float64, w float6
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
 
-	pdfimg.setImgObj(imgObj)
+	i.putPalette(&imgObj)
+	err = pdfimg.setImgObj(imgObj)
+	if err != nil {
+		return err
+	}
 
 	i.pdfImgs = append(i.pdfImgs, &pdfimg)
 	//fmt.Printf("-->%d\n", len(i.pdfImgs))
@@ -458,7 +463,11 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 			smaskObjID := i.pdf.putNewObject(pdfObj)
 			imgObj.SetSMaskObjID(smaskObjID)
 		}
-		pdfimg.setImgObj(imgObj)
+		i.putPalette(&imgObj)
+		err = pdfimg.setImgObj(imgObj)
+		if err != nil {
+			return err
+		}
 
 		i.pdfImgs = append(i.pdfImgs, pdfimg)
 		i.pdfImgsMd5Map[md5Str] = pdfimg
@@ -475,6 +484,15 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 	return nil
 }
 
+// putPalette adds the palette of an Indexed image to the document
+func (i *PDFt) putPalette(imgObj *gopdf.ImageObj) {
+	if buff := imgObj.PaletteBuffer(); buff != nil {
+		var pdfObj PDFObjData
+		pdfObj.data = buff.Bytes()
+		imgObj.SetPaletteObjID(i.pdf.putNewObject(pdfObj))
+	}
+}
+
 /*
 func (i *PDFt) insertContenters(index int, src Contenter) {
 	i.contenters = append(i.contenters, nil)
-- 
2.43.0


From ec3192782328f64a2f62e1baf85bad37241339fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:34 +0000
Subject: [PATCH 16/26] fix: saving leaves the document as it was, so it can be
 saved again

---
 minigopdf/cid_font_obj.go           | 2 +-
 minigopdf/pdf_dictionary_obj.go     | 1 +
 minigopdf/subfont_descriptor_obj.go | 2 +-
 minigopdf/subset_font_obj.go        | 1 +
 minigopdf/unicode_map.go            | 1 +
 pdft.go                             | 2 ++
 6 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/minigopdf/cid_font_obj.go b/minigopdf/cid_font_obj.go
index 310b2d2..6911b38 100644
--- a/minigopdf/cid_font_obj.go
+++ b/minigopdf/cid_font_obj.go
@@ -15,7 +15,7 @@ func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
 }
 
 func (ci *CIDFontObj) build(objID int) error {
-
+	ci.buffer.Reset() //may be built again
 	ci.buffer.WriteString("<<\n")
 	ci.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily())))
 	ci.buffer.WriteString("/CIDSystemInfo\n")
diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 53e4cbe..71a0aa0 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -43,6 +43,7 @@ func (p *PdfDictionaryObj) protection() *PDFProtection {
 }
 
 func (p *PdfDictionaryObj) build(objID int) error {
+	p.buffer.Reset() //may be built again
 	b, err := p.makeFont()
 	if err != nil {
 		//log.Panicf("%s", err.Error())
diff --git a/minigopdf/subfont_descriptor_obj.go b/minigopdf/subfont_descriptor_obj.go
index ca21e7e..3a57f15 100644
--- a/minigopdf/subfont_descriptor_obj.go
+++ b/minigopdf/subfont_descriptor_obj.go
@@ -24,7 +24,7 @@ func (s *SubfontDescriptorObj) getObjBuff() *bytes.Buffer {
 }
 
 func (s *SubfontDescriptorObj) build(objID int) error {
-
+	s.buffer.Reset() //may be built again
 	ttfp := s.PtrToSubsetFontObj.GetTTFParser()
 	//fmt.Printf("-->%d\n", ttfp.UnitsPerEm())
 	s.buffer.WriteString("<<\n")
diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 1bc87be..a0cbe1c 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -46,6 +46,7 @@ func (s *SubsetFontObj) init(funcGetRoot func() *GoPdf) {
 }
 
 func (s *SubsetFontObj) build(objID int) error {
+	s.buffer.Reset() //may be built again
 	//me.AddChars("จ")
 	s.buffer.WriteString("<<\n")
 	s.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(s.Family)))
diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index bc7fa84..3ca0556 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -32,6 +32,7 @@ func (u *UnicodeMap) SetPtrToSubsetFontObj(ptr *SubsetFontObj) {
 }
 
 func (u *UnicodeMap) build(objID int) error {
+	u.buffer.Reset() //may be built again
 	buff, err := u.pdfToUnicodeMap(objID)
 	if err != nil {
 		return err
diff --git a/pdft.go b/pdft.go
index 9f01d33..d7047d5 100644
--- a/pdft.go
+++ b/pdft.go
@@ -629,6 +629,8 @@ func (i *PDFt) build() (*PDFData, int, error) {
 	}
 
 	newpdf := i.pdf //copy
+	newpdf.objIDs = append([]int(nil), i.pdf.objIDs...)
+	newpdf.objs = append([]PDFObjData(nil), i.pdf.objs...)
 
 	err = newpdf.injectFontsToPDF(i.fontDatas)
 	if err != nil {
-- 
2.43.0


From f06710d602967b989fa87657554431509b1623be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:38 +0000
Subject: [PATCH 17/26] fix: text that cannot be set is not queued, and
 measuring without a font is an error instead of a crash

---
 minigopdf/cache_content_text.go | 5 ++++-
 pdft.go                         | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 6989485..e759455 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -388,7 +388,10 @@ func (c *CacheContent) WriteTextToContent(text string) {
 
 // ToStream create stream of content
 func (c *CacheContent) ToStream(protection *PDFProtection) (*bytes.Buffer, error) {
-	c.cacheContentText.createContent()
+	_, _, err := c.cacheContentText.createContent()
+	if err != nil {
+		return nil, err
+	}
 	return c.cacheContentText.toStream(protection)
 }
 
diff --git a/pdft.go b/pdft.go
index d7047d5..2be5a76 100644
--- a/pdft.go
+++ b/pdft.go
@@ -317,13 +317,15 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 		return ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	if err := ct.pdfFontData.addChars(text); err != nil {
+		return err
+	}
 	i.contenters = append(i.contenters, &ct)
-	return i.fontDatas[ct.fontName].addChars(text)
+	return nil
 }
 
 // MeasureTextWidth measure text width
 func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
-	i.fontDatas[i.curr.fontName].addChars(text)
 	var ct ContentText
 	ct.text = text
 	ct.fontName = i.curr.fontName
@@ -335,6 +337,9 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 		return 0, ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	if err := ct.pdfFontData.addChars(text); err != nil {
+		return 0, err
+	}
 	width, err := ct.measureTextWidth()
 	return width, err
 }
-- 
2.43.0


From fddaafbe9fb64911d56da8e7ef380032dfa35635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:41 +0000
Subject: [PATCH 18/26] fix: page content is added when the filter is given as
 an array, other filters are an error instead of a broken page

---
 pdf_data.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index a544267..6b5bdb2 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -428,6 +428,9 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	pageObjIDs, _ := p.getPageObjIDs()
 	objMustReplaces := make(map[int]string)
 	for pageIndex, pageObjID := range pageObjIDs {
+		if _, ok := pageBuffs[pageIndex+1]; !ok {
+			continue // nothing to add to this page
+		}
 
 		var cw2Content crawl
 		cw2Content.set(p, pageObjID, "Contents")
@@ -469,14 +472,10 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			}
 
 			data := &p.getObjByID(contentsObjID).data
-			zip := true
-			propContentsObj, err := readProperty(data, "FlateDecode")
+			zip, err := isFlateDecode(data)
 			if err != nil {
 				return err
 			}
-			if propContentsObj == nil {
-				zip = false
-			}
 
 			var stm *bytes.Buffer
 			//fmt.Printf("\n-------------------%d-----------------------\n%s\n\n", contentsObjID, string(*data))
@@ -510,6 +509,30 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	return nil
 }
 
+// isFlateDecode tells whether a stream is compressed, any other filter is an error
+func isFlateDecode(data *[]byte) (bool, error) {
+	var props PDFObjPropertiesData
+	err := readProperties(data, &props)
+	if err != nil {
+		return false, err
+	}
+	filter := props.getPropByKey("Filter")
+	if filter == nil {
+		return false, nil
+	}
+	if props.getPropByKey("FlateDecode") != nil { // name
+		return true, nil
+	}
+	raw := strings.TrimSpace(filter.rawVal) // array of names
+	names := strings.Fields(strings.Trim(strings.Replace(raw, "/", " ", -1), "[] "))
+	if strings.HasPrefix(raw, "[") && len(names) == 0 {
+		return false, nil
+	} else if strings.HasPrefix(raw, "[") && len(names) == 1 && names[0] == "FlateDecode" {
+		return true, nil
+	}
+	return false, errors.New("not support /Filter of /Contents other than FlateDecode yet")
+}
+
 func streamLength(p *PDFData, data *[]byte) (int, error) {
 
 	prop, err := readProperty(data, "Length")
-- 
2.43.0


From fc2011acd9325631f1f23cc7cea9132cf3665f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:58 +0000
Subject: [PATCH 19/26] fix: text and images inserted on a page without
 /Contents are no longer lost

---
 pdf_data.go | 12 ++++++++++++
 pdft.go     |  1 +
 2 files changed, 13 insertions(+)

diff --git a/pdf_data.go b/pdf_data.go
index 6b5bdb2..1004725 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -439,6 +439,7 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			return err
 		}
 
+		haveContents := false
 		for _, r := range cw2Content.results {
 
 			//fmt.Printf("%s\n\n", r.String())
@@ -450,6 +451,7 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			if err == ErrCrawlResultValOfNotFound {
 				continue
 			}
+			haveContents = true
 
 			propContentsValType := propertyType(propContentsVal)
 			/*if propContentsValType != dictionary {
@@ -497,6 +499,16 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			}
 
 		}
+
+		if !haveContents { // blank page
+			stm := pageBuffs[pageIndex+1]
+			var contentsObj PDFObjData
+			contentsObj.data = []byte(fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String()))
+			contentsObjID := p.putNewObject(contentsObj)
+			pageObj := p.getObjByID(pageObjID)
+			end := bytes.LastIndex(pageObj.data, []byte(">>"))
+			pageObj.data = []byte(fmt.Sprintf("%s\n/Contents %d 0 R\n>>\n", pageObj.data[:end], contentsObjID))
+		}
 	}
 
 	for objID := range objMustReplaces {
diff --git a/pdft.go b/pdft.go
index 2be5a76..321d888 100644
--- a/pdft.go
+++ b/pdft.go
@@ -688,6 +688,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	nextID = newpdf.maxID() // content of blank pages is a new object
 
 	//set for protection
 	if i.protection() != nil {
-- 
2.43.0


From dfb2e7aa3727ebdd66c9bc5eb7c4b92da9a18715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:59 +0000
Subject: [PATCH 20/26] fix: fonts and images are added to the resources of
 every page, existing ones are kept and names do not collide

---
 crawl_result_font.go     |   2 +-
 crawl_result_x_object.go |  14 +-
 pdf_data.go              | 396 ++++++++++++---------------------------
 pdf_parse.go             |  20 +-
 4 files changed, 138 insertions(+), 294 deletions(-)

diff --git a/crawl_result_font.go b/crawl_result_font.go
index 23ece59..3e2769e 100644
--- a/crawl_result_font.go
+++ b/crawl_result_font.go
@@ -41,7 +41,7 @@ func (c *crawlResultFonts) parse(propVal *[]byte) error {
 
 		prefix, fontIndex, err := splitFont(strings.TrimSpace(prop.key))
 		if err != nil {
-			return err
+			continue // not a name that ends in an index
 		}
 		objID, _, err := prop.asDictionary()
 		if err != nil {
diff --git a/crawl_result_x_object.go b/crawl_result_x_object.go
index ca895a0..5a99c0f 100644
--- a/crawl_result_x_object.go
+++ b/crawl_result_x_object.go
@@ -30,7 +30,7 @@ func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 		xObj.xObjChar = tokens[1]
 		xObjIndex, err := strconv.Atoi(strings.TrimSpace(tokens[2]))
 		if err != nil {
-			return err
+			continue // not a name that ends in an index
 		}
 		xObj.xObjIndex = xObjIndex
 
@@ -49,11 +49,21 @@ func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 func (c *crawlResultXObjects) String() string {
 	var buff bytes.Buffer
 	for _, xObj := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R", xObj.xObjChar, xObj.xObjIndex, xObj.xObjObjID))
+		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R\n", xObj.xObjChar, xObj.xObjIndex, xObj.xObjObjID))
 	}
 	return buff.String()
 }
 
+func (c *crawlResultXObjects) maxXObjIndex() int {
+	max := 0
+	for _, xObj := range *c {
+		if xObj.xObjIndex > max {
+			max = xObj.xObjIndex
+		}
+	}
+	return max
+}
+
 type crawlResultXObject struct {
 	xObjChar  string
 	xObjIndex int
diff --git a/pdf_data.go b/pdf_data.go
index 1004725..1751e75 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -76,34 +76,6 @@ func (p *PDFData) getObjByID(objID int) *PDFObjData {
 	return nil
 }
 
-// getPageCrawl use crawl, supporting for page nesting
-func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
-	var cw crawl
-	pagePath := append([]string{"Pages"}, path...)
-	cw.set(p, objID, pagePath...)
-	cw.run()
-	checkedQueue := []int{}
-	for k := range cw.results {
-		checkedQueue = append(checkedQueue, k)
-	}
-	for len(checkedQueue) > 0 {
-		key := checkedQueue[0]
-		if s := cw.results[key].String(); strings.Contains(s, "/Pages") && strings.Contains(s, "/Parent") {
-			var subCw crawl
-			subCw.set(p, key, path...)
-			subCw.run()
-			for k, v := range subCw.results {
-				cw.results[k] = v
-				if _, ok := cw.results[k]; !ok {
-					checkedQueue = append(checkedQueue, k)
-				}
-			}
-		}
-		checkedQueue = checkedQueue[1:]
-	}
-	return &cw, nil
-}
-
 // getPageObjIDs get page obj IDs
 func (p *PDFData) getPageObjIDs() ([]int, error) {
 	results := []int{}
@@ -160,247 +132,154 @@ func (p *PDFData) maxID() int {
 }
 
 func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
-	var err error
-	isEmbedResources := false
-	rootOfXObjectID := -1
-	resourcesContent := ""
-	cwRes, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources")
-	//if err != nil {
-	//	return err
-	//}
-	foundRes := false
-	for resID, r := range cwRes.results {
-		resources, err := r.valOf("Resources")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		} else {
-			foundRes = true
-			resourcesID, _, err := readObjIDFromDictionary(resources)
-			if err == ErrorObjectIDNotFound {
-				rootOfXObjectID = resID
-				resourcesContent = resources
-				isEmbedResources = true
-			} else if err != nil {
-				return err
-			} else {
-				rootOfXObjectID = resourcesID
-				data := p.getObjByID(resourcesID)
-				if data != nil {
-					resourcesContent = string(data.data)
-				}
-				isEmbedResources = false
-			}
-			break
-		}
-	}
-
-	if !foundRes {
-		return errors.New("not found /Resources in /Type/Pages")
+	if len(pdfImgs) == 0 {
+		return nil
 	}
-
-	var cw crawl
-	//cw.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources", "XObject")
-	cw.set(p, rootOfXObjectID, "XObject")
-	err = cw.run()
+	xObjIndex := 0
+	err := p.editResources("XObject", func(dict string) (string, error) {
+		var xobjs crawlResultXObjects
+		propVal := []byte(dict)
+		err := xobjs.parse(&propVal)
+		if err != nil {
+			return "", err
+		}
+		if max := xobjs.maxXObjIndex(); max > xObjIndex {
+			xObjIndex = max
+		}
+		return dict, nil
+	})
 	if err != nil {
 		return err
 	}
 
-	found := false
-	xObjectVals := make(map[int]string)
-	for objID, r := range cw.results {
-		xobject, err := r.valOf("XObject")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		} else {
-			xObjectVals[objID] = xobject
-			found = true
-		}
+	var newXObjs crawlResultXObjects
+	for _, pdfImg := range pdfImgs {
+		xObjIndex++
+		pdfImg.xObjChar = "I"
+		pdfImg.xObjIndex = xObjIndex
+		newXObjs = append(newXObjs, crawlResultXObject{
+			xObjChar:  pdfImg.xObjChar,
+			xObjIndex: pdfImg.xObjIndex,
+			xObjObjID: pdfImg.objID,
+		})
 	}
 
-	if !found { //ถ้ายังไม่เจออีก
-		cw2, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
-		cw = *cw2
+	return p.editResources("XObject", func(dict string) (string, error) {
+		return appendToDict(dict, newXObjs.String()), nil
+	})
+}
+
+func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
+	if len(fontDatas) == 0 {
+		return nil
+	}
+	maxFontIndex := 0
+	err := p.editResources("Font", func(dict string) (string, error) {
+		var crFonts crawlResultFonts
+		propVal := []byte(dict)
+		err := crFonts.parse(&propVal)
 		if err != nil {
-			return err
+			return "", err
 		}
-		for objID, r := range cw.results {
-			xobject, err := r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			} else {
-				xObjectVals[objID] = xobject
-				found = true
-			}
+		if max := crFonts.maxFontIndex(); max > maxFontIndex {
+			maxFontIndex = max
 		}
+		return dict, nil
+	})
+	if err != nil {
+		return err
 	}
 
-	var xobjs crawlResultXObjects
-	var xObjIndex int
-	xObjChar := "I"
-	if found {
-		for _, xObjectVal := range xObjectVals {
-			propVal := []byte(xObjectVal)
-			xobjs.parse(&propVal)
-			if len(xobjs) > 0 {
-				xObjChar = xobjs[len(xobjs)-1].xObjChar
-				if xobjs[len(xobjs)-1].xObjIndex > xObjIndex {
-					xObjIndex = xobjs[len(xobjs)-1].xObjIndex
-				}
-			}
-		}
+	var newCrFonts crawlResultFonts //font ใหม่ที่จะยัดเข้าไป
+	for _, pdffontdata := range fontDatas {
+		maxFontIndex++
+		newCrFonts.append(maxFontIndex, pdffontdata.fontID)
+		pdffontdata.setFontIndex(maxFontIndex)
 	}
 
-	i := 0
-	max := len(pdfImgs)
-	for i < max {
-		objID := pdfImgs[i].objID
-		pdfImgs[i].xObjChar = xObjChar
-		pdfImgs[i].xObjIndex = xObjIndex + i + 1
+	return p.editResources("Font", func(dict string) (string, error) {
+		return appendToDict(dict, newCrFonts.String()), nil
+	})
+}
 
-		var xobj crawlResultXObject
-		xobj.xObjChar = xObjChar
-		xobj.xObjIndex = xObjIndex + i + 1
-		xobj.xObjObjID = objID
-		xobjs = append(xobjs, xobj)
-		i++
+// editResources replaces the dictionary key, e.g. Font, in the resources of every
+// page by what edit makes of it. A dictionary shared by several pages is edited once.
+func (p *PDFData) editResources(key string, edit func(dict string) (string, error)) error {
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
 	}
-
-	objMustReplaces := make(map[int]string)
-	if found {
-		for objID, r := range cw.results {
-			var oldXObjectStr string
-			oldXObjectStr, err = r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			}
-			var newXObjs crawlResultXObjects
-			bOldXObjectStr := []byte(oldXObjectStr)
-			newXObjs.parse(&bOldXObjectStr)
-			for _, xobj := range xobjs { // pick new item from xobjs into newXObjs
-				isExisted := false
-				for _, existedXObj := range newXObjs {
-					if existedXObj.xObjChar == xobj.xObjChar && existedXObj.xObjIndex == xobj.xObjIndex { // Avoid conflict of same xObjIndex when editing emerged pdf
-						isExisted = true
-						break
-					}
-				}
-				if !isExisted {
-					newXObjs = append(newXObjs, xobj)
-				}
-			}
-			r.setValOf("XObject", fmt.Sprintf("<<%s>>\n", newXObjs.String()))
-			objMustReplaces[objID] = r.String()
+	done := make(map[int]bool)
+	for _, pageObjID := range pageObjIDs {
+		ownerID, prop, err := inheritedProp(p, pageObjID, "Resources")
+		if err != nil {
+			return err
 		}
-	} else {
-		if isEmbedResources {
-			var cw01 crawl
-			cw01.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources")
-			err = cw01.run()
-			if err != nil {
-				return err
-			}
-			for objID, r := range cw01.results {
-				res, err := r.valOf("Resources")
-				if err == ErrCrawlResultValOfNotFound {
-					continue
-				} else if err != nil {
-					return err
-				} else {
-					res = strings.TrimSpace(res)
-					res = fmt.Sprintf("%s /XObject <<%s>>", res[2:len(res)-2], xobjs.String())
-					r.setValOf("Resources", fmt.Sprintf("<<%s>>\n", res))
-					objMustReplaces[objID] = r.String()
-				}
-			}
-		} else {
-			for objID, r := range cw.results {
-				res := strings.TrimSpace(resourcesContent)
-				res = fmt.Sprintf("<<%s>>\n", xobjs.String())
-				r.add("XObject", res)
-				objMustReplaces[objID] = r.String()
-				//fmt.Printf("%s\n", r.String())
-			}
+		if prop == nil {
+			ownerID = pageObjID
+		}
+		err = p.editObj(ownerID, []string{"Resources", key}, edit, done)
+		if err != nil {
+			return err
 		}
 	}
-
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
-	}
-
 	return nil
 }
 
-func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
-	var err error
-	cw, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "Font")
+func (p *PDFData) editObj(objID int, path []string, edit func(dict string) (string, error), done map[int]bool) error {
+	if done[objID] {
+		return nil
+	}
+	done[objID] = true
+	obj := p.getObjByID(objID)
+	if obj == nil {
+		return ErrorObjectIDNotFound
+	}
+	dict, err := p.editDict(string(obj.data), path, edit, done)
 	if err != nil {
 		return err
 	}
+	obj.data = []byte(dict)
+	return nil
+}
 
-	maxFontIndex, err := findMaxFontIndex(cw, p)
+func (p *PDFData) editDict(dict string, path []string, edit func(dict string) (string, error), done map[int]bool) (string, error) {
+	if len(path) == 0 {
+		return edit(dict)
+	}
+	var obj PDFObjData
+	obj.data = []byte(dict)
+	props, err := obj.readProperties()
 	if err != nil {
-		return err
+		return "", err
 	}
-
-	var newCrFonts crawlResultFonts //font ใหม่ที่จะยัดเข้าไป
-	for _, pdffontdata := range fontDatas {
-		maxFontIndex++
-		newCrFonts.append(maxFontIndex, pdffontdata.fontID)
-		pdffontdata.setFontIndex(maxFontIndex)
+	prop := props.getPropByKey(path[0])
+	if prop == nil {
+		props.append(PDFObjPropertyData{key: path[0], rawVal: "<<>>"})
+		prop = props.at(props.size() - 1)
 	}
-
-	objMustReplaces := make(map[int]string)
-	//หา obj ที่ต้องยัด font ใหม่ลงไป
-	for objID, r := range cw.results { //วน แต่ละ ojb
-		fontPropVal, err := r.valOf("Font")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		}
-
-		fontPropValType := propertyType(fontPropVal)
-		if fontPropValType == object {
-			var crFonts crawlResultFonts
-			tmp := []byte(fontPropVal)
-			err = crFonts.parse(&tmp)
-			if err != nil {
-				return err
-			}
-			crFonts = append(crFonts, newCrFonts...)
-			r.setValOf("Font", "<<\n"+crFonts.String()+">>\n")
-			objMustReplaces[objID] = r.String()
-		} else if fontPropValType == dictionary {
-			var fontObjID int
-			fontObjID, _, err = readObjIDFromDictionary(fontPropVal)
-			if err != nil {
-				return err
-			}
-			var crFonts crawlResultFonts
-			fontObj := p.getObjByID(fontObjID)
-			err = crFonts.parse(&fontObj.data)
-			if err != nil {
-				return err
-			}
-			crFonts = append(crFonts, newCrFonts...)
-			objMustReplaces[fontObjID] = crFonts.String()
+	if prop.valType() != object {
+		objID, _, err := prop.asDictionary()
+		if err != nil {
+			return "", err
 		}
+		return dict, p.editObj(objID, path[1:], edit, done)
 	}
-
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
+	prop.rawVal, err = p.editDict(prop.rawVal, path[1:], edit, done)
+	if err != nil {
+		return "", err
 	}
+	obj.setProperties(props)
+	return string(obj.data), nil
+}
 
-	return nil
+// appendToDict adds entries at the end of a dictionary
+func appendToDict(dict string, entries string) string {
+	end := strings.LastIndex(dict, ">>")
+	if end == -1 {
+		return dict
+	}
+	return dict[:end] + "\n" + entries + dict[end:]
 }
 
 func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
@@ -609,51 +488,6 @@ func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 	return &out, nil
 }
 
-func findMaxFontIndex(cw *crawl, p *PDFData) (int, error) {
-	//find max font index
-	max := 0
-	for _, item := range cw.results {
-		fontPropVal, err := item.valOf("Font")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return 0, err
-		}
-
-		var crFonts crawlResultFonts
-		fontPropValType := propertyType(fontPropVal)
-		if fontPropValType == object {
-			tmp := []byte(fontPropVal)
-			err = crFonts.parse(&tmp)
-			if err != nil {
-				return 0, err
-			}
-			//fmt.Printf("%#v\n", crFonts)
-		} else if fontPropValType == dictionary {
-			var fontObjID int
-			fontObjID, _, err = readObjIDFromDictionary(fontPropVal)
-			if err != nil {
-				return 0, err
-			}
-			fontObj := p.getObjByID(fontObjID)
-			err = crFonts.parse(&fontObj.data)
-			if err != nil {
-				return 0, err
-			}
-			//fmt.Printf("%#v\n", crFonts)
-		} else {
-			return 0, errors.New("not support /Font type array yet")
-		}
-
-		maxFontIndex := crFonts.maxFontIndex()
-		if maxFontIndex > max {
-			max = maxFontIndex
-		}
-	}
-
-	return max, nil
-}
-
 func objIDFromStartObjLine(line string) (int, error) {
 	tokens := strings.Fields(line)
 	if len(tokens) < 3 {
diff --git a/pdf_parse.go b/pdf_parse.go
index c6d6aad..4558f1d 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -53,7 +53,7 @@ func parsePageSize(pdf *PDFData) error {
 	}
 
 	for n, pageID := range pageIDs {
-		propContentsObj, err := mediaBoxOf(pdf, pageID)
+		_, propContentsObj, err := inheritedProp(pdf, pageID, "MediaBox")
 		if err != nil {
 			return err
 		}
@@ -77,28 +77,28 @@ func parsePageSize(pdf *PDFData) error {
 	return nil
 }
 
-// mediaBoxOf finds the MediaBox of a page, which may be inherited from a parent
-// node of the page tree. It returns nil when there is none.
-func mediaBoxOf(pdf *PDFData, objID int) (*PDFObjPropertyData, error) {
+// inheritedProp finds a property of a page, which may be inherited from a parent
+// node of the page tree, and the node that has it. It returns nil when there is none.
+func inheritedProp(pdf *PDFData, objID int, key string) (int, *PDFObjPropertyData, error) {
 	for depth := 0; depth <= pdf.Len(); depth++ {
 		obj := pdf.getObjByID(objID)
 		if obj == nil {
-			return nil, nil
+			return 0, nil, nil
 		}
-		prop, err := readProperty(&obj.data, "MediaBox")
+		prop, err := readProperty(&obj.data, key)
 		if err != nil || prop != nil {
-			return prop, err
+			return objID, prop, err
 		}
 		parent, err := readProperty(&obj.data, "Parent")
 		if err != nil || parent == nil {
-			return nil, err
+			return 0, nil, err
 		}
 		objID, _, err = parent.asDictionary()
 		if err != nil {
-			return nil, err
+			return 0, nil, err
 		}
 	}
-	return nil, nil
+	return 0, nil, nil
 }
 
 func parseFloatSlice(s string) ([]float64, error) {
-- 
2.43.0


From 030a2d3e073438061d3a9fe53c46093d0d0de113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:02 +0000
Subject: [PATCH 21/26] fix: font names with underscores or given in place no
 longer make Save crash or fail

---
 crawl_result_font.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crawl_result_font.go b/crawl_result_font.go
index 3e2769e..3f860ad 100644
--- a/crawl_result_font.go
+++ b/crawl_result_font.go
@@ -17,8 +17,7 @@ func splitFont(s string) (string, int, error) {
 	prefix := ""
 	for i, r := range s {
 		if unicode.IsDigit(r) {
-			s := strings.ReplaceAll(s, "_", "")
-			val, err := strconv.Atoi(s[i:])
+			val, err := strconv.Atoi(strings.ReplaceAll(s[i:], "_", ""))
 			if err != nil {
 				return "", 0, err
 			}
@@ -44,7 +43,7 @@ func (c *crawlResultFonts) parse(propVal *[]byte) error {
 			continue // not a name that ends in an index
 		}
 		objID, _, err := prop.asDictionary()
-		if err != nil {
+		if err != nil && prop.valType() != object { // a font may be given in place
 			return err
 		}
 		crFont.prefix = prefix
-- 
2.43.0


From 37d39f0fb56992818b6fe5a680c5cb5c486d0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:34 +0000
Subject: [PATCH 22/26] fix: content is added after the last of several content
 streams of a page, not into the first

---
 pdf_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index 1751e75..8641ee8 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -347,7 +347,7 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 				if err != nil || len(contentsObjIDs) <= 0 {
 					return err
 				}
-				contentsObjID = contentsObjIDs[0]
+				contentsObjID = contentsObjIDs[len(contentsObjIDs)-1]
 			} else {
 				return errors.New("not support /Contents type not dictionary,array yet")
 			}
-- 
2.43.0


From 19bb82a4ef312d07da7be39b2301d5df3c3ce9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:09 +0000
Subject: [PATCH 23/26] fix: content added to a page no longer shows on, or is
 lost to, other pages that share the content stream

---
 pdf_data.go | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/pdf_data.go b/pdf_data.go
index 8641ee8..f2aab4b 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -310,6 +310,10 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 		if _, ok := pageBuffs[pageIndex+1]; !ok {
 			continue // nothing to add to this page
 		}
+		err = p.unshareContents(pageObjID, pageObjIDs)
+		if err != nil {
+			return err
+		}
 
 		var cw2Content crawl
 		cw2Content.set(p, pageObjID, "Contents")
@@ -400,6 +404,51 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	return nil
 }
 
+// unshareContents gives a page its own copy of the content stream that content is
+// added to, when the stream is used elsewhere too
+func (p *PDFData) unshareContents(pageObjID int, pageObjIDs []int) error {
+	contentsObjIDs, err := p.contentsObjIDs(pageObjID)
+	if err != nil || len(contentsObjIDs) == 0 {
+		return err
+	}
+	last := len(contentsObjIDs) - 1
+	refs := 0
+	for _, id := range pageObjIDs {
+		others, err := p.contentsObjIDs(id)
+		if err != nil {
+			continue // no content that could be shared
+		}
+		for _, other := range others {
+			if other == contentsObjIDs[last] {
+				refs++
+			}
+		}
+	}
+	contentsObj := p.getObjByID(contentsObjIDs[last])
+	if refs <= 1 || contentsObj == nil {
+		return nil
+	}
+	contentsObjIDs[last] = p.putNewObject(*contentsObj) //copy object value
+	pageObj := p.getObjByID(pageObjID)
+	props, err := pageObj.readProperties()
+	if err != nil {
+		return err
+	}
+	props.getPropByKey("Contents").setAsDictionaryArr(contentsObjIDs, nil)
+	pageObj.setProperties(props)
+	return nil
+}
+
+// contentsObjIDs get obj IDs of the content streams of a page
+func (p *PDFData) contentsObjIDs(pageObjID int) ([]int, error) {
+	prop, err := readProperty(&p.getObjByID(pageObjID).data, "Contents")
+	if err != nil || prop == nil {
+		return nil, err
+	}
+	objIDs, _, err := prop.asDictionaryArr()
+	return objIDs, err
+}
+
 // isFlateDecode tells whether a stream is compressed, any other filter is an error
 func isFlateDecode(data *[]byte) (bool, error) {
 	var props PDFObjPropertiesData
-- 
2.43.0


From 47c6a43a7fbd30e4ea0a6fe87afa6003e69c4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:12 +0000
Subject: [PATCH 24/26] fix: a truncated reference in an array is an error, not
 a crash

---
 pdf_obj_property_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index bbe0127..0373e7a 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -183,6 +183,9 @@ func readObjIDFromDictionaryArr(str string) ([]int, []int, error) {
 	i := 0
 	max := len(tokens)
 	for i < max {
+		if i+1 >= max {
+			return nil, nil, ErrorObjectIDNotFound
+		}
 		objID, err := strconv.Atoi(strings.TrimSpace(tokens[i]))
 		if err != nil {
 			return nil, nil, err
-- 
2.43.0


From f6981211055c0318882f11890093fee419d7eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:03 +0000
Subject: [PATCH 25/26] fix: an empty chunk no longer ends the reading of a PNG

---
 minigopdf/image_obj_parse.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 18a8a25..a99aff3 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -287,10 +287,6 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} //end for
 
 	//info.data = data //ok
-- 
2.43.0


From 05dac580ed79d53a92fc86e878e259e2bec5c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:57 +0000
Subject: [PATCH 26/26] fix: encrypting a stream whose /Length is a reference
 leaves the line end before endstream alone

---
 pdf_data.go     |  3 +++
 pdf_obj_data.go | 12 ++++--------
 pdft.go         |  2 +-
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index f2aab4b..23ac118 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -498,6 +498,9 @@ func streamLength(p *PDFData, data *[]byte) (int, error) {
 			return 0, err
 		}
 		fontlengthObj := p.getObjByID(objID)
+		if fontlengthObj == nil {
+			return 0, ErrorObjectIDNotFound
+		}
 		return strconv.Atoi(strings.TrimSpace(string(fontlengthObj.data)))
 	} else {
 		return 0, errors.New("/Length or /Length1  wrong type")
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index d747d88..bf44084 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -4,8 +4,6 @@ import (
 	"bytes"
 	"crypto/rc4"
 	"errors"
-	"strconv"
-	"strings"
 
 	gopdf "github.com/signintech/pdft/minigopdf"
 )
@@ -66,7 +64,7 @@ func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 	p.data = data.Bytes()
 }
 
-func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
+func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection, pdf *PDFData) error {
 
 	stream := []byte("stream")
 	endstream := []byte("endstream")
@@ -76,11 +74,9 @@ func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
 		var head bytes.Buffer
 		head.Write(p.data[0:start])
 		tmp := trimStreamEOL(p.data[start+len(stream) : end])
-		if prop, err := readProperty(&p.data, "Length"); err == nil && prop != nil && prop.valType() == number {
-			length, err := strconv.Atoi(strings.TrimSpace(prop.rawVal))
-			if err == nil && length >= 0 && length <= len(tmp) {
-				tmp = tmp[0:length] // what follows is the EOL before endstream
-			}
+		length, err := streamLength(pdf, &p.data)
+		if err == nil && length >= 0 && length <= len(tmp) {
+			tmp = tmp[0:length] // what follows is the EOL before endstream
 		}
 		bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), tmp)
 		if err != nil {
diff --git a/pdft.go b/pdft.go
index 321d888..9bd0c27 100644
--- a/pdft.go
+++ b/pdft.go
@@ -695,7 +695,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		max := newpdf.Len()
 		x := 0
 		for x < max {
-			newpdf.objs[x].encrypt(i.protection())
+			newpdf.objs[x].encrypt(i.protection(), &newpdf)
 			x++
 		}
 	}
-- 
2.43.0


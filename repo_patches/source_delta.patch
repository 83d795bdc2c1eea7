From 7302485d39d4ff4a1d00c7eff3a14cfdc8c9a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:19 +0000
Subject: [PATCH 01/90] fix: decode FITS data independently of how the source
 splits its reads

A read returning data together with io.EOF was treated as a failure, and odd-sized
short reads (as delivered by gzip) could index past the end of the decoding buffer.
---
 internal/fits/read.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 043aea4..efafab6 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -138,7 +138,17 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if !readData {
 		return nil
 	}
-	return fits.readData(f, logWriter)
+	return fits.readData(fullReader{f}, logWriter)
+}
+
+// Wraps a reader to always fill the given buffer completely, so data decoding does not depend on how
+// the source splits its reads. Returns an error if less data is available.
+type fullReader struct {
+	r io.Reader
+}
+
+func (f fullReader) Read(p []byte) (n int, err error) {
+	return io.ReadFull(f.r, p)
 }
 
 // Read image data from file, convert to float32 data type, apply BZero offset and set BZero to 0 afterwards.
-- 
2.43.0


From 0cf596a449d19437698abcae73ea41e743865506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:19 +0000
Subject: [PATCH 02/90] fix: do not wrap around integer FITS header values
 beyond 32 bits

---
 internal/fits/read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index efafab6..17f748b 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -499,8 +499,10 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 				}
 			case byte('i'): // int
 				val, err := strconv.ParseInt(string(subValues[i]), 10, 64)
-				if err == nil {
+				if err == nil && val == int64(int32(val)) {
 					h.Ints[key] = int32(val)
+				} else if fval, err := strconv.ParseFloat(string(subValues[i]), 64); err == nil {
+					h.Floats[key] = float32(fval) // too large for an int32, e.g. BZERO of unsigned 32-bit data
 				}
 			case byte('f'): // float
 				val, err := strconv.ParseFloat(string(subValues[i]), 64)
-- 
2.43.0


From fe5e4879845d409e7ddf14352193f0319ad5a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:19 +0000
Subject: [PATCH 03/90] fix: read FITS header floats with exponents as written
 by nightlight itself

---
 internal/fits/read.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 17f748b..73e8a88 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -505,7 +505,8 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Floats[key] = float32(fval) // too large for an int32, e.g. BZERO of unsigned 32-bit data
 				}
 			case byte('f'): // float
-				val, err := strconv.ParseFloat(string(subValues[i]), 64)
+				text := strings.NewReplacer("D", "E", "d", "E").Replace(string(subValues[i])) // D exponents are legal FITS
+				val, err := strconv.ParseFloat(text, 64)
 				if err == nil {
 					h.Floats[key] = float32(val)
 				}
@@ -554,7 +555,7 @@ func compileRE() *regexp.Regexp {
 
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
-	floa := "(?P<f>[+-]?[0-9]*\\.[0-9]*(?:[ED][-+]?[0-9]+)?)"
+	floa := "(?P<f>[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]*)(?:[EeDd][-+]?[0-9]+)?)"
 	stri := "'(?P<s>[^']*)'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
-- 
2.43.0


From 403cfef13df98e2eb82687b0494fc0e5b7690d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 04/90] fix: reject FITS headers with invalid axis counts or
 lengths

---
 internal/fits/read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 73e8a88..8d14a5f 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -110,6 +110,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if naxis, err = fits.PopHeaderInt32("NAXIS"); err != nil {
 		return err
 	}
+	if naxis < 1 || naxis > 999 {
+		return fmt.Errorf("%d: Invalid or unsupported number of axes %d in FITS header", fits.ID, naxis)
+	}
 	fits.Naxisn = make([]int32, naxis)
 	fits.Pixels = int32(1)
 	for i := int32(1); i <= naxis; i++ {
@@ -118,6 +121,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 		if nai, err = fits.PopHeaderInt32(name); err != nil {
 			return err
 		}
+		if nai < 1 || nai > math.MaxInt32/fits.Pixels {
+			return fmt.Errorf("%d: Invalid axis length %s=%d in FITS header", fits.ID, name, nai)
+		}
 		fits.Naxisn[i-1] = nai
 		fits.Pixels *= int32(nai)
 	}
-- 
2.43.0


From 4486314c719d4389fc9504f29cd0e2d4e0407f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 05/90] fix: do not overwrite FITS header comments with history
 entries

---
 internal/fits/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 8d14a5f..8b3d903 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -495,7 +495,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			case byte('H'): // history line
 				h.History = append(h.History, string(subValues[i]))
 			case byte('C'): // comment line
-				h.Comments = append(h.History, string(subValues[i]))
+				h.Comments = append(h.Comments, string(subValues[i]))
 			case byte('k'): // key
 				key = string(subValues[i])
 			case byte('b'): // boolean
-- 
2.43.0


From c614f9ad31ac57aea32992e6ae98e5894a93fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 06/90] fix: read back quoted and long FITS header strings,
 write each string once

---
 internal/fits/fits.go  |  1 +
 internal/fits/read.go  | 15 ++++++++++++---
 internal/fits/write.go | 21 ++++++++++++++-------
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index a20b614..097b2ab 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -126,6 +126,7 @@ type Header struct {
 	History  []string
 	End      bool
 	Length   int32
+	contKey  string   // Key of the string on the previous header line, may be continued. Empty if none
 }
 
 // Creates a FITS header initialized with empty maps and arrays
diff --git a/internal/fits/read.go b/internal/fits/read.go
index 8b3d903..2bdd433 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -30,6 +30,7 @@ import (
 )
 
 var reParser *regexp.Regexp = compileRE() // Regexp parser for FITS header lines
+var reContinue *regexp.Regexp = regexp.MustCompile("^CONTINUE\\s+'((?:[^']|'')*)'\\s*(?:/.*)?$") // Regexp parser for FITS string continuations
 
 func NewImageFromFile(fileName string, id int, logWriter io.Writer) (i *Image, err error) {
 	i = NewImage()
@@ -472,6 +473,14 @@ func (h *Header) read(r io.Reader, id int, logWriter io.Writer) error {
 		// parse all lines in this header unit
 		for lineNo := 0; lineNo < fitsBlockSize/HeaderLineSize && !h.End; lineNo++ {
 			line := buf[lineNo*HeaderLineSize : (lineNo+1)*HeaderLineSize]
+			contKey := h.contKey
+			h.contKey = ""
+			if cont := reContinue.FindSubmatch(line); cont != nil && strings.HasSuffix(h.Strings[contKey], "&") {
+				// continuation of the preceding long string value, drop its trailing ampersand
+				h.Strings[contKey] = strings.TrimSuffix(h.Strings[contKey], "&") + strings.ReplaceAll(string(cont[1]), "''", "'")
+				h.contKey = contKey
+				continue
+			}
 			subValues := reParser.FindSubmatch(line)
 			if subValues == nil {
 				fmt.Fprintf(logWriter, "%d: Warning:Cannot parse '%s', ignoring\n", id, string(line))
@@ -517,7 +526,8 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Floats[key] = float32(val)
 				}
 			case byte('s'): // string
-				h.Strings[key] = string(subValues[i])
+				h.Strings[key] = strings.ReplaceAll(string(subValues[i]), "''", "'")
+				h.contKey = key
 			case byte('d'): // date
 				h.Dates[key] = string(subValues[i])
 			case byte('c'): // comment
@@ -562,11 +572,10 @@ func compileRE() *regexp.Regexp {
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
 	floa := "(?P<f>[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]*)(?:[EeDd][-+]?[0-9]+)?)"
-	stri := "'(?P<s>[^']*)'"
+	stri := "'(?P<s>(?:[^']|'')*)'" // quotes inside strings are doubled
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
 
-	// missing: CONTINUE for strings
 	// missing: complex int: (nr, nr)
 	// missing: complex float: (nr, nr)
 
diff --git a/internal/fits/write.go b/internal/fits/write.go
index 9d73889..e3ce71b 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -94,7 +94,6 @@ func (h *Header) Write(w io.Writer) {
 	for k,v:=range(h.Ints   ) { writeInt32  (w, k, v, "") }
 	for k,v:=range(h.Floats ) { writeFloat32(w, k, v, "") }
 	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
-	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
 	for k,v:=range(h.Dates  ) { writeString (w, k, v, "") }
 	// FIXME: ignoring h.Comments and h.History for now
 }
@@ -156,22 +155,30 @@ func writeString(w io.Writer, key, value, comment string) {
 
 	// escape ' characters
 	value=strings.Join(strings.Split(value, "'"), "''")
-	// FIXME: Malformatted output ERROR if printing breaks the '' characters!
-
 	if len(value)<=18 {
 		fmt.Fprintf(w, "%-8s= '%s'%s / %-47s", key, value, strings.Repeat(" ", 18-len(value)), comment)
 	} else {
-		fmt.Fprintf(w, "%-8s= '%s&' / %-47s", key, value[0:17], comment)
-		value=value[17:]
+		n:=splitLength(value, 17)
+		fmt.Fprintf(w, "%-8s= '%s&'%s / %-47s", key, value[0:n], strings.Repeat(" ", 17-n), comment)
+		value=value[n:]
 		for ; len(value)>66 ; {
-			fmt.Fprintf(w, "CONTINUE  '%s&' ", value[0:66])
-			value=value[66:]
+			n=splitLength(value, 66)
+			fmt.Fprintf(w, "CONTINUE  '%s&'%s ", value[0:n], strings.Repeat(" ", 66-n))
+			value=value[n:]
 		}
 		fmt.Fprintf(w, "CONTINUE  '%s'%s", value, strings.Repeat(" ", 50+(18-len(value))))
 	}	
 }
 
 
+// Number of leading bytes, max or one less, at which an escaped string can be split without breaking a '' pair
+func splitLength(value string, max int) int {
+	quotes:=0
+	for quotes<max && value[max-1-quotes]=='\'' { quotes++ }
+	return max-(quotes&1)
+}
+
+
 // Writes a FITS header end record 
 func writeEnd(w io.Writer) {
 	fmt.Fprintf(w, "END%s", strings.Repeat(" ", 80-3))
-- 
2.43.0


From bf4674509d53aeac55bdbcaf49b28e7807a7c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 07/90] fix: truncate existing FITS files on overwrite

---
 internal/fits/write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index e3ce71b..e9fa890 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -31,7 +31,7 @@ import (
 // Compresses with gzip if .gz or gzip suffix is present.
 func (fits *Image) WriteFile(fileName string) error {
 	//fmt.Println("Reading from " + fileName + "..." )
-	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE, 0644)
+	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE |os.O_TRUNC, 0644)
 	if err!=nil { return err }
 	defer f.Close()
 
-- 
2.43.0


From 328a6f03064dd9dd05ae5d5c36ba917f6a7a1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 08/90] fix: report errors of incomplete FITS, TIFF and JPEG
 saves

---
 internal/fits/tiff16.go   | 20 ++++++++++++++------
 internal/fits/write.go    |  8 +++++---
 internal/fits/writejpg.go | 20 ++++++++++++++------
 internal/ops/operator.go  |  8 ++++----
 4 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 1c29b2c..43c2fe9 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -36,9 +36,13 @@ func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) erro
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteTIFF16(writer, min, max, gamma)
+	if err := f.WriteTIFF16(writer, min, max, gamma); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a FITS image to 16-bit TIFF, using the given min, max and gamma.
@@ -99,9 +103,13 @@ func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32)
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteMonoTIFF16(writer, min, max, gamma)
+	if err := f.WriteMonoTIFF16(writer, min, max, gamma); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a grayscale FITS image to 16-bit TIFF, using the given min, max and gamma.
diff --git a/internal/fits/write.go b/internal/fits/write.go
index e9fa890..96afb4a 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -42,11 +42,13 @@ func (fits *Image) WriteFile(fileName string) error {
 	lExt:=strings.ToLower(ext)
 	if lExt==".gz" || lExt==".gzip" {
 		gw:=gzip.NewWriter(f)
-		defer gw.Close()
-		w=gw
+		if err:=fits.Write(gw); err!=nil { return err }
+		if err:=gw.Close(); err!=nil { return err }
+		return f.Close()
 	} 
 
-	return fits.Write(w)
+	if err:=fits.Write(w); err!=nil { return err }
+	return f.Close()
 }
 
 
diff --git a/internal/fits/writejpg.go b/internal/fits/writejpg.go
index 8581bb9..d522fa7 100644
--- a/internal/fits/writejpg.go
+++ b/internal/fits/writejpg.go
@@ -34,9 +34,13 @@ func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteJPG(writer, min, max, gamma, quality)
+	if err := f.WriteJPG(writer, min, max, gamma, quality); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a FITS image to JPG, using the given min, max and gamma.
@@ -97,9 +101,13 @@ func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, qua
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteMonoJPG(writer, min, max, gamma, quality)
+	if err := f.WriteMonoJPG(writer, min, max, gamma, quality); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a grayscale FITS image to JPG, using the given min, max and gamma.
diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index ff41e01..1a7ffcc 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -432,11 +432,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
 		}
@@ -444,11 +444,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
 		}
-- 
2.43.0


From 0816172fa26bc277c6d258024a9f7c7eda058e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 09/90] fix: load 8-bit and RGB TIFF images without crashing

---
 internal/fits/tiff16.go | 65 +++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 43c2fe9..dcdfe42 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -17,6 +17,7 @@ package fits
 
 import (
 	"bufio"
+	"fmt"
 	"image"
 	"image/color"
 	"io"
@@ -161,6 +162,9 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// determine width, height, color depth and number of color channels
 	width, height := t.Bounds().Dx(), t.Bounds().Dy()
 	bitpix, channels := colorModelToBitpixAndChannels(t.ColorModel())
+	if channels == 0 {
+		return fmt.Errorf("%d: unsupported TIFF color model", f.ID)
+	}
 
 	// set FITS metadata
 	f.Bitpix = bitpix
@@ -177,10 +181,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// allocate FITS image bitmap
 	f.Data = make([]float32, f.Pixels)
 	sizeThird := int(f.Pixels / 3)
-	sizeTwoThirds := int(f.Pixels * 2)
-
-	// keep running stats
-	min, max, sum := float32(math.MaxFloat32), float32(-math.MaxFloat32), float64(0)
+	sizeTwoThirds := sizeThird * 2
 
 	// read and convert pixels
 	if channels == 1 {
@@ -188,18 +189,8 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.Gray16)
-				gray := float32(c.Y)
+				gray, _, _ := colorToSamples(t.At(x, y))
 				f.Data[y*width+x] = gray
-
-				// update stats
-				if gray < min {
-					min = gray
-				}
-				if gray > max {
-					max = gray
-				}
-				sum += float64(gray)
 			}
 		}
 	} else {
@@ -207,34 +198,44 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.RGBA64)
-				r, g, b := float32(c.R), float32(c.G), float32(c.B)
+				r, g, b := colorToSamples(t.At(x, y))
 				f.Data[y*width+x] = r
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
-
-				// convert r, g, b to greyscale value
-				gray := 0.2126*r + 0.7152*g + 0.0722*b
-
-				// update stats
-				if gray < min {
-					min = gray
-				}
-				if gray > max {
-					max = gray
-				}
-				sum += float64(gray)
 			}
 		}
 	}
 
-	// finalize stats
-	mean := float32(sum / float64(width) / float64(height))
-	f.Stats = stats.NewStatsWithMMM(f.Data, f.Naxisn[0], min, max, mean)
+	// prepare stats
+	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
 
 	return nil
 }
 
+// Convert a golang color as returned by TIFF decoding to its sample values. All three are the same for greyscale.
+func colorToSamples(c color.Color) (r, g, b float32) {
+	switch c := c.(type) {
+	case color.RGBA:
+		return float32(c.R), float32(c.G), float32(c.B)
+	case color.RGBA64:
+		return float32(c.R), float32(c.G), float32(c.B)
+	case color.NRGBA:
+		return float32(c.R), float32(c.G), float32(c.B)
+	case color.NRGBA64:
+		return float32(c.R), float32(c.G), float32(c.B)
+	case color.Alpha:
+		return float32(c.A), float32(c.A), float32(c.A)
+	case color.Alpha16:
+		return float32(c.A), float32(c.A), float32(c.A)
+	case color.Gray:
+		return float32(c.Y), float32(c.Y), float32(c.Y)
+	case color.Gray16:
+		return float32(c.Y), float32(c.Y), float32(c.Y)
+	default:
+		return 0, 0, 0
+	}
+}
+
 // Convert a golang image color model to FITS bitpix and number of channels.
 func colorModelToBitpixAndChannels(m color.Model) (bitpix, channels int32) {
 	switch m {
-- 
2.43.0


From a6ed90fe7be3bd99ca7e1e1458b6b32140761c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 10/90] fix: substitute padded frame number placeholders such
 as %04d in output names

---
 internal/ops/operator.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 1a7ffcc..9dcc0a3 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -24,6 +24,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -363,6 +364,8 @@ type OpSave struct {
 	Gamma       float32    `json:"gamma"`
 }
 
+var reFrameNumber = regexp.MustCompile("%[0-9]*d") // placeholder for the image id in file names, e.g. %d or %04d
+
 func init() { SetOperatorFactory(func() Operator { return NewOpSaveDefault() }) } // register the operator for JSON decoding
 
 func NewOpSaveDefault() *OpSave { return NewOpSave("", EMMinMax, 1) }
@@ -399,9 +402,7 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		return nil, fmt.Errorf("cannot save nil file to %s", op.FilePattern)
 	}
 	fileName := op.FilePattern
-	if strings.Contains(fileName, "%d") {
-		fileName = fmt.Sprintf(op.FilePattern, f.ID)
-	}
+	fileName = reFrameNumber.ReplaceAllStringFunc(fileName, func(s string) string { return fmt.Sprintf(s, f.ID) })
 	fnLower := strings.ToLower(fileName)
 
 	if err != nil {
-- 
2.43.0


From b53bf8874f927c880b0ff42f9d3ea34779530794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 11/90] fix: do not include memory beyond the pixels in image
 statistics

---
 internal/stats/stats_amd64.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/internal/stats/stats_amd64.go b/internal/stats/stats_amd64.go
index 4022bc7..8c1892c 100644
--- a/internal/stats/stats_amd64.go
+++ b/internal/stats/stats_amd64.go
@@ -23,23 +23,39 @@ import (
 
 // Calculate minimum, mean and maximum of given data
 func calcMinMeanMax(data []float32) (min, mean, max float32) {
-    if cpuid.CPU.AVX2() {
-        return calcMinMeanMaxAVX2(data)
+    // The AVX2 code processes groups of four values. It would read past the end of the data otherwise
+    n:=len(data) &^ 3
+    if n==0 || !cpuid.CPU.AVX2() {
+        return calcMinMeanMaxPureGo(data)
     }
-    return calcMinMeanMaxPureGo(data)
+    min, mean, max = calcMinMeanMaxAVX2(data[:n])
+    if n<len(data) {
+        tailMin, tailMean, tailMax := calcMinMeanMaxPureGo(data[n:])
+        if tailMin<min { min=tailMin }
+        if tailMax>max { max=tailMax }
+        mean=float32((float64(mean)*float64(n) + float64(tailMean)*float64(len(data)-n)) / float64(len(data)))
+    }
+    return min, mean, max
 }
 
-// Calculate minimum, mean and maximum of given data. AVX2 implementation
+// Calculate minimum, mean and maximum of given data. AVX2 implementation, for nonempty data with a multiple of four elements
 func calcMinMeanMaxAVX2(data []float32) (min, mean, max float32)
 
 
 // Calculate variance of given data from provided mean. 
 func calcVariance(data []float32, mean float32) (result float64) {
-    if cpuid.CPU.AVX2() {
-		return calcVarianceAVX2(data, mean)
+    // The AVX2 code processes groups of four values. It would read past the end of the data otherwise
+    n:=len(data) &^ 3
+    if n==0 || !cpuid.CPU.AVX2() {
+        return calcVariancePureGo(data, mean)
+    }
+    result = calcVarianceAVX2(data[:n], mean)
+    if n<len(data) {
+        tailResult:=calcVariancePureGo(data[n:], mean)
+        result=(result*float64(n) + tailResult*float64(len(data)-n)) / float64(len(data))
     }
-	return calcVariancePureGo(data, mean)
+    return result
 }
 
-// Calculate variance of given data from provided mean. AVX2 implementation
+// Calculate variance of given data from provided mean. AVX2 implementation, for data with a multiple of four elements
 func calcVarianceAVX2(data []float32, mean float32) (result float64)
-- 
2.43.0


From 51e72453afc4042b402a0fc56e10d94207f8c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 12/90] fix: refresh image statistics after every step that
 changes pixels

---
 internal/fits/rgb.go            | 1 +
 internal/ops/hsl/hsl.go         | 1 +
 internal/ops/pre/preprocess.go  | 3 +++
 internal/ops/stretch/stretch.go | 2 ++
 internal/stats/stats.go         | 6 +++++-
 5 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index ecf52ea..2a965a9 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -85,6 +85,7 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 	dest:=hsl.Data[2*l:]
 	copy(dest, lum.Data)
 	hsl.Exposure+=lum.Exposure
+	hsl.Stats.Clear()
 }
 
 
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 22bb3f0..79a78da 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -552,6 +552,7 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	for i := range sharpened {
 		f.Data[2*f.Pixels/3+int32(i)] = sharpened[i]
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2a2cfbf..49abfa8 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -24,6 +24,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/star"
+	"github.com/mlnoga/nightlight/internal/stats"
 )
 
 type OpCalibrate struct {
@@ -197,6 +198,7 @@ func (op *OpBadPixel) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		fmt.Fprintf(c.Log, "%d: Removed %d bad bayer pixels (%.2f%%) with sigma low=%.2f high=%.2f\n",
 			f.ID, numRemoved, 100.0*float32(numRemoved)/float32(f.Pixels), op.SigmaLow, op.SigmaHigh)
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
@@ -243,6 +245,7 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	}
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
+	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
 	fmt.Fprintf(c.Log, "%d: Debayered channel %s from cfa %s, new size %dx%d\n", f.ID, op.Channel, op.ColorFilterArray, f.Naxisn[0], f.Naxisn[1])
 
 	return f, nil
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index fdace99..195229c 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -372,6 +372,7 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	f.Stats.SetData(f.Data)
 	return f, nil
 }
 
@@ -420,5 +421,6 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	f.Stats.SetData(f.Data)
 	return f, nil
 }
diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 9724bf9..86adef1 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -92,8 +92,12 @@ func (s *Stats) UpdateCachedWith(multiplier, offset float32) {
 	s.min = s.min*multiplier + offset
 	s.max = s.max*multiplier + offset
 	s.mean = s.mean*multiplier + offset
-	s.stdDev = s.stdDev * multiplier
 	s.location = s.location*multiplier + offset
+	if multiplier < 0 { // negative values swap the extremes, and measures of scale are never negative
+		s.min, s.max = s.max, s.min
+		multiplier = -multiplier
+	}
+	s.stdDev = s.stdDev * multiplier
 	s.scale = s.scale * multiplier
 	s.noise = s.noise * multiplier
 }
-- 
2.43.0


From f2c16a27c8bb6ab6cb60ef4bf53e104285b254da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 13/90] fix: background extraction with few, fully masked or
 constant grid cells

---
 internal/ops/pre/background.go | 79 +++++++++++++++++++++++++++-------
 1 file changed, 63 insertions(+), 16 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 8d9a671..de5da64 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -70,7 +70,13 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 	height := int32(len(src) / int(width))
 
 	gridCellsX := (width + gridSpacing/2) / gridSpacing
+	if gridCellsX < 1 { // grid spacing is larger than the image
+		gridCellsX = 1
+	}
 	gridCellsY := (height + gridSpacing/2) / gridSpacing
+	if gridCellsY < 1 {
+		gridCellsY = 1
+	}
 	gridCells := gridCellsX * gridCellsY
 	gridSpacingX := float32(width) / float32(gridCellsX)
 	gridSpacingY := float32(height) / float32(gridCellsY)
@@ -86,6 +92,7 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 	b.binStarsIntoCells(stars)
 
 	b.init(src, sigma)
+	b.fillEmptyCells(src, sigma)
 	//LogPrintf("Sigma %f\n", sigma)
 	//LogPrintln(b.CellsString())
 
@@ -171,12 +178,39 @@ func (b *Background) init(src []float32, sigma float32) {
 	}
 }
 
+// Fills cells which are fully covered by stars from their neighbors
+func (b *Background) fillEmptyCells(src []float32, sigma float32) {
+	for _, cell := range b.Cells {
+		if !math.IsNaN(float64(cell)) {
+			b.interpolateInvalid()
+			return
+		}
+	}
+	// no valid cell at all, so ignore the stars
+	b.CellStars = make([][]star.Star, b.GridCells)
+	b.init(src, sigma)
+}
+
+// Replaces invalid cells with interpolations of their neighbors. There must be at least one valid cell
+func (b *Background) interpolateInvalid() {
+	for neighbors := 8; neighbors > 0; neighbors-- {
+		numChanged := 1
+		for numChanged > 0 {
+			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
+		}
+	}
+}
+
 // Clips the top n entries from the background gradient
 func (b *Background) clip(n int32, logWriter io.Writer) {
 	buffer := make([]float32, b.GridCells)
 	copy(buffer, b.Cells)
-	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
-	buffer = nil
+	k := len(buffer) - int(n) + 1
+	if k < 1 {
+		k = 1
+	}
+	threshold := qsort.QSelectFloat32(buffer, k)
+	copy(buffer, b.Cells)
 
 	ignoredCells := int32(0)
 	for i, cell := range b.Cells {
@@ -185,19 +219,17 @@ func (b *Background) clip(n int32, logWriter io.Writer) {
 			ignoredCells++
 		}
 	}
+	if ignoredCells == b.GridCells { // nothing left to interpolate from, so keep the cells
+		copy(b.Cells, buffer)
+		return
+	}
 
 	//fmt.Fprintf(logWriter, "n=%d: %d ignored cells based on threshold %f\n", n, ignoredCells, threshold)
 	//LogPrintln(b.CellsString())
 	b.OutlierCells = ignoredCells
 
 	// Then replace cells with interpolations
-	for neighbors := 8; neighbors >= 0; neighbors-- {
-		numChanged := 1
-		for numChanged > 0 {
-			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
-		}
-	}
-	buffer = nil
+	b.interpolateInvalid()
 }
 
 func (b *Background) smoothe() {
@@ -354,6 +386,9 @@ func (b Background) Render() (dest []float32) {
 				xl--
 				xh--
 			}
+			if xl < 0 { // single grid cell in X direction
+				xl++
+			}
 			if yl < 0 {
 				yl++
 				yh++
@@ -362,12 +397,15 @@ func (b Background) Render() (dest []float32) {
 				yl--
 				yh--
 			}
+			if yl < 0 { // single grid cell in Y direction
+				yl++
+			}
 			xr, yr := srcX-float32(xl), srcY-float32(yl)
 
 			xlyl := xl + yl*b.GridCellsX
-			xhyl := xlyl + 1            // xh+yl*origWidth
-			xlyh := xlyl + b.GridCellsX // xl+yh*origWidth
-			xhyh := xhyl + b.GridCellsX // xh+yh*origWidth
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
 
 			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
 			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
@@ -433,6 +471,9 @@ func (b Background) Subtract(dest []float32) error {
 				xl--
 				xh--
 			}
+			if xl < 0 { // single grid cell in X direction
+				xl++
+			}
 			if yl < 0 {
 				yl++
 				yh++
@@ -441,12 +482,15 @@ func (b Background) Subtract(dest []float32) error {
 				yl--
 				yh--
 			}
+			if yl < 0 { // single grid cell in Y direction
+				yl++
+			}
 			xr, yr := srcX-float32(xl), srcY-float32(yl)
 
 			xlyl := xl + yl*b.GridCellsX
-			xhyl := xlyl + 1            // xh+yl*origWidth
-			xlyh := xlyl + b.GridCellsX // xl+yh*origWidth
-			xhyh := xhyl + b.GridCellsX // xh+yh*origWidth
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
 
 			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
 			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
@@ -464,6 +508,9 @@ func (b Background) Subtract(dest []float32) error {
 func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
 	// Gather grid cell contents without known stars
 	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
+	if len(medBuffer) == 0 { // fully covered by stars
+		return float32(math.NaN())
+	}
 
 	// Approximate the local background histogram peak location via median. Reorders the buffer
 	median := qsort.QSelectMedianFloat32(medBuffer)
@@ -480,7 +527,7 @@ func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yE
 	// Calculate trimmed median without upward outliers
 	numSamples := 0
 	for _, v := range medBuffer {
-		if v < upperBound {
+		if v <= upperBound {
 			medBuffer[numSamples] = v
 			numSamples++
 		}
-- 
2.43.0


From 8ee24e3bb4cdc9539840e32ae54c8daf18e93e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 14/90] fix: write the extracted background file

---
 internal/ops/pre/preprocess.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 49abfa8..86c384e 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -389,11 +389,15 @@ func (op *OpBackExtract) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	} else {
 		bgData := bg.Render()
 		bgFits := fits.NewImageFromNaxisn(f.Naxisn, bgData)
+		bgFits.ID = f.ID
 		promise := func() (f *fits.Image, err error) { return bgFits, nil }
-		_, err := op.Save.MakePromises([]ops.Promise{promise}, c)
+		promises, err := op.Save.MakePromises([]ops.Promise{promise}, c)
 		if err != nil {
 			return nil, err
 		}
+		if _, err = promises[0](); err != nil {
+			return nil, err
+		}
 		Subtract(f.Data, f.Data, bgData)
 		bgFits.Data, bgData = nil, nil
 	}
-- 
2.43.0


From 77f433eb2624fcd566ed82b1ff732d6a81942b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 15/90] fix: 3x3 median of images less than eight pixels wide
 on AVX2

---
 internal/median/median3x3_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/median3x3_amd64.go b/internal/median/median3x3_amd64.go
index 5f9f3c1..655706f 100644
--- a/internal/median/median3x3_amd64.go
+++ b/internal/median/median3x3_amd64.go
@@ -25,7 +25,7 @@ import (
 // Applies 3x3 median filter to input data, assumed to be a 2D array with given line width, and stores results in output.
 // Copies over the outermost rows and columns unchanged.
 func MedianFilter3x3(output, data []float32, width int32) {
-    if cpuid.CPU.AVX2() {
+    if cpuid.CPU.AVX2() && width>=8 { // vector code processes eight columns at a time
       medianFilter3x3AVX2(output, data, width)
     } else {
       medianFilter3x3PureGo(output, data,width)
-- 
2.43.0


From b4a647ce9f2c80baad52b2173ef7aced51d25623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 16/90] fix: median of partial neighborhoods at image edges
 ignores stale values

---
 internal/median/gather.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/gather.go b/internal/median/gather.go
index 5d68a89..04aaf7e 100644
--- a/internal/median/gather.go
+++ b/internal/median/gather.go
@@ -34,5 +34,5 @@ func GatherAndMedian(data []float32, index int32, mask []int32, buffer []float32
 		}
 	}
 
-	return MedianFloat32(buffer)
+	return MedianFloat32(buffer[:num])
 }
-- 
2.43.0


From 9ed37dd4883dc219c8dff463d2baeaf4148e6a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 17/90] fix: apply dark and flat frames only in the step which
 names them, reject mismatching ones for every light

---
 internal/ops/pre/preprocess.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 86c384e..e40590c 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -71,26 +71,26 @@ func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		return nil, err
 	} // lazy init of dark and flat frames
 
-	if c.DarkFrame != nil {
+	if op.Dark != "" && c.DarkFrame != nil {
 		if !fits.EqualInt32Slice(f.Naxisn, c.DarkFrame.Naxisn) {
 			if f.Pixels!=c.DarkFrame.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from dark dimensions %v",
 					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
 			}
-			fmt.Printf("%d: Warning: light dimensions %v differ from dark dimensions %v but same product, ignoring for Seestar",
+			fmt.Fprintf(c.Log, "%d: Warning: light dimensions %v differ from dark dimensions %v but same product, ignoring for Seestar\n",
 					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
 		}
 		Subtract(f.Data, f.Data, c.DarkFrame.Data)
 		f.Stats.Clear()
 	}
 
-	if c.FlatFrame != nil {
+	if op.Flat != "" && c.FlatFrame != nil {
 		if !fits.EqualInt32Slice(f.Naxisn, c.FlatFrame.Naxisn) {
 			if f.Pixels!=c.FlatFrame.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from flat dimensions %v",
 					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
 			}
-			fmt.Printf("%d: Warning: light dimensions %v differ from flat dimensions %v but same product, ignoring for Seestar",
+			fmt.Fprintf(c.Log, "%d: Warning: light dimensions %v differ from flat dimensions %v but same product, ignoring for Seestar\n",
 					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
 		}
 		Divide(f.Data, f.Data, c.FlatFrame.Data, c.FlatFrame.Stats.Max())
@@ -127,6 +127,11 @@ func (op *OpCalibrate) init(c *ops.Context) error {
 		return err
 	}
 
+	if op.Dark != "" && op.Flat != "" && !fits.EqualInt32Slice(images[0].Naxisn, images[1].Naxisn) {
+		return fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
+			images[0].Naxisn, images[1].Naxisn)
+	}
+
 	if op.Dark != "" {
 		c.DarkFrame = images[0]
 		if op.Flat != "" {
@@ -135,11 +140,6 @@ func (op *OpCalibrate) init(c *ops.Context) error {
 	} else if op.Flat != "" {
 		c.FlatFrame = images[0]
 	}
-
-	if c.DarkFrame != nil && c.FlatFrame != nil && !fits.EqualInt32Slice(c.DarkFrame.Naxisn, c.FlatFrame.Naxisn) {
-		return fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
-			c.DarkFrame.Naxisn, c.FlatFrame.Naxisn)
-	}
 	return nil
 }
 
-- 
2.43.0


From d358c4153fd3819e8c32e77bf6456abfcf5c9ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 18/90] fix: reference selection delivers every frame once at
 its own position, selects by frame ID and fails cleanly without candidates

---
 internal/ops/ref/filter.go   |   2 +-
 internal/ops/ref/refframe.go | 101 +++++++++++++++++++++++++----------
 2 files changed, 75 insertions(+), 28 deletions(-)

diff --git a/internal/ops/ref/filter.go b/internal/ops/ref/filter.go
index 36bba69..c01e341 100644
--- a/internal/ops/ref/filter.go
+++ b/internal/ops/ref/filter.go
@@ -41,7 +41,7 @@ func (op *OpFilter) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpFilter) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.MinStars <= 0 {
+	if f == nil || op.MinStars <= 0 {
 		return f, nil
 	}
 
diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 71e021c..f66cf6d 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -23,6 +23,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/ops/pre"
 	"github.com/mlnoga/nightlight/internal/qsort"
+	"github.com/mlnoga/nightlight/internal/star"
 	"math"
 	"strconv"
 	"sync"
@@ -44,7 +45,12 @@ type OpSelectReference struct {
 	Mode         string            `json:"mode"`
 	StarDetect   *pre.OpStarDetect `json:"starDetect"`
 	mutex        sync.Mutex        `json:"-"`
-	materialized []*fits.Image     `json:"-"`
+}
+
+// Frames materialized while selecting a reference, for one set of promises
+type selection struct {
+	frames []*fits.Image // materialized frames by index of the promise, nil for frames filtered out
+	ready  []bool        // for each promise, whether its frame has been materialized and not been delivered yet
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpSelectReferenceDefault() }) } // register the operator for JSON decoding
@@ -84,14 +90,15 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 		return nil, errors.New(fmt.Sprintf("%s operator needs inputs", op.Type))
 	}
 
+	sel := &selection{}
 	outs = make([]ops.Promise, len(ins))
 	for i, _ := range ins {
-		outs[i] = op.applySingle(i, ins, c)
+		outs[i] = op.applySingle(i, ins, sel, c)
 	}
 	return outs, nil
 }
 
-func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Context) ops.Promise {
+func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selection, c *ops.Context) ops.Promise {
 	return func() (f *fits.Image, err error) {
 		op.mutex.Lock()             // lock so a single thread accesses the reference frame
 		if c.RefFrameError != nil { // if reference frame detection failed in a prior thread
@@ -100,14 +107,12 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		}
 		if (op.Target == SRAlign && c.AlignStars != nil) ||
 			(op.Target == SRHisto && c.MatchHisto != nil) { // if a reference frame already exists
+			mat, ready := sel.take(i)
 			op.mutex.Unlock() // unlock immediately to allow ...
-			if op.materialized == nil || op.materialized[i] == nil {
+			if !ready {
 				return ins[i]() // ... materializations to be parallelized by the caller
-			} else {
-				mat := op.materialized[i]
-				op.materialized[i] = nil // remove reference to free memory
-				return mat, nil
 			}
+			return mat, nil
 		}
 		defer op.mutex.Unlock() // else release lock later when reference frame is computed
 
@@ -131,6 +136,10 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 				return nil, c.RefFrameError
 			}
 
+			if op.StarDetect == nil {
+				c.RefFrameError = errors.New("missing star detection for reference image")
+				return nil, c.RefFrameError
+			}
 			promises, c.RefFrameError = op.StarDetect.MakePromises([]ops.Promise{promises[0]}, c)
 			if c.RefFrameError != nil {
 				return nil, c.RefFrameError
@@ -151,37 +160,35 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		}
 
 		// otherwise, materialize the input promises
-		op.materialized, c.RefFrameError = ops.MaterializeAll(ins, c.MaxThreads, false)
+		c.RefFrameError = sel.materialize(ins, c)
 		if c.RefFrameError != nil {
 			return nil, c.RefFrameError
 		}
 
-		// Auto-select mode for (L)RGB
-		if mode == "%rgb" {
-			if len(op.materialized) > 3 {
-				mode, fileID, atoiErr = "3", 3, nil
-			} else {
-				mode = "%starsHFR"
-			}
-		}
-
 		// select reference with given mode
 		var refScore float32
 		var refFrame *fits.Image
-		if mode == "%starsHFR" {
-			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(op.materialized)
+		if mode == "%rgb" && len(sel.frames) > 3 { // Auto-select for LRGB
+			refFrame = sel.frames[3]
+		} else if mode == "%starsHFR" || mode == "%rgb" {
+			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(sel.frames)
 		} else if mode == "%location" {
-			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(op.materialized, c)
+			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(sel.frames, c)
 		} else if atoiErr == nil {
-			if fileID < 0 || fileID >= len(op.materialized) {
+			for _, frame := range sel.frames {
+				if frame != nil && frame.ID == fileID {
+					refFrame = frame
+					break
+				}
+			}
+			if refFrame == nil {
 				c.RefFrameError = errors.New(fmt.Sprintf("invalid reference file ID %d", fileID))
 				return nil, c.RefFrameError
 			}
-			refFrame = op.materialized[fileID]
 		} else {
 			c.RefFrameError = errors.New(fmt.Sprintf("Unknown refrence selection mode '%s'", op.Mode))
 		}
-		if refFrame == nil {
+		if refFrame == nil && c.RefFrameError == nil {
 			c.RefFrameError = errors.New("Unable to select reference image.")
 		}
 		if c.RefFrameError != nil {
@@ -191,19 +198,56 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		op.assignResults(c, refFrame)
 
 		// return promise for the materialized image of this instance
-		mat := op.materialized[i]
-		op.materialized[i] = nil // remove reference
+		mat, _ := sel.take(i)
 		return mat, nil
 	}
 }
 
+// Materializes all promises, keeping each frame at the index of its promise
+func (sel *selection) materialize(ins []ops.Promise, c *ops.Context) error {
+	frames := make([]*fits.Image, len(ins))
+	indexed := make([]ops.Promise, len(ins))
+	for i, _ := range ins {
+		i := i
+		indexed[i] = func() (f *fits.Image, err error) {
+			frames[i], err = ins[i]()
+			return nil, err
+		}
+	}
+	if _, err := ops.MaterializeAll(indexed, c.MaxThreads, true); err != nil {
+		return err
+	}
+	sel.frames, sel.ready = frames, make([]bool, len(ins))
+	for i, _ := range sel.ready {
+		sel.ready[i] = true
+	}
+	return nil
+}
+
+// Hands out the materialized frame for the promise with given index, and removes the reference to free memory
+func (sel *selection) take(i int) (f *fits.Image, ready bool) {
+	if sel.ready == nil || !sel.ready[i] {
+		return nil, false
+	}
+	f = sel.frames[i]
+	sel.frames[i], sel.ready[i] = nil, false
+	return f, true
+}
+
 func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image) {
 	if op.Target == SRAlign {
 		c.AlignNaxisn = refFrame.Naxisn
 		c.AlignStars = refFrame.Stars
+		if c.AlignStars == nil {
+			c.AlignStars = []star.Star{} // selection is done, even if the frame has no stars
+		}
 		c.AlignHFR = refFrame.HFR
 	} else if op.Target == SRHisto {
-		c.MatchHisto = refFrame.Stats
+		// The frame itself is processed further, so keep a copy of its current location and scale
+		refFrame.Stats.Location()
+		refStats := *refFrame.Stats
+		refStats.FreeData()
+		c.MatchHisto = &refStats
 	} else {
 		fmt.Fprintf(c.Log, "Invalid reference selection target %d, skipping.\n", op.Target)
 	}
@@ -231,6 +275,9 @@ func selectReferenceMedianLoc(lights []*fits.Image, c *ops.Context) (refFrame *f
 	fun := func(f *fits.Image) float32 { return f.Stats.Location() }
 	locs := inParallel(lights, fun, c.MaxThreads)
 	locs = removeNaNs(locs)
+	if len(locs) == 0 {
+		return nil, 0, errors.New("Unable to select reference frame with median location")
+	}
 
 	// calculate median
 	medianLoc := qsort.QSelectMedianFloat32(locs)
-- 
2.43.0


From f7295f6177ef8c0848c040074b0e6a38fac6ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 19/90] fix: skip operators for frames dropped by an earlier
 step

---
 internal/ops/operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 9dcc0a3..90ae49f 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -200,6 +200,9 @@ func (op *OpUnaryBase) MakePromise(in Promise, c *Context) (out Promise) {
 		if f, err = in(); err != nil {
 			return nil, err
 		} // materialize input promise
+		if f == nil {
+			return nil, nil
+		} // frame was dropped by an earlier step
 		if f, err = op.Apply(f, c); err != nil {
 			return nil, err
 		} // apply unary operator
-- 
2.43.0


From af38aa214372509a55cd3ea90c57a567ef13ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:45 +0000
Subject: [PATCH 20/90] fix: statistics export is complete on disk after every
 frame, for any job and frames dropped, and reports write errors

---
 internal/ops/operator.go           |  7 ----
 internal/ops/ref/exportstats.go    | 63 +++++++++++++++---------------
 internal/ops/stack/stackbatches.go |  2 -
 3 files changed, 31 insertions(+), 41 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 90ae49f..e426580 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -16,13 +16,11 @@
 package ops
 
 import (
-	"bufio"
 	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"os"
 	"path/filepath"
 	"regexp"
 	"runtime"
@@ -49,11 +47,6 @@ type Context struct {
 	MatchHisto      *stats.Stats
 	RefFrameError   error
 	LumFrame        *fits.Image
-
-	StatsTotal     int
-	StatsProcessed int
-	StatsFile      *os.File      `json:"-"` // the output file being written to. do not use directly
-	StatsBufWriter *bufio.Writer `json:"-"` // buffered writer for the output file. use this
 }
 
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index 6516ef0..6513266 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -16,7 +16,6 @@
 package ref
 
 import (
-	"bufio"
 	"encoding/json"
 	"fmt"
 	"os"
@@ -28,10 +27,10 @@ import (
 
 type OpExportStats struct {
 	ops.OpUnaryBase
-	FileName     string        `json:"fileName"`
-	mutex        sync.Mutex    `json:"-"`
-	materialized []*fits.Image `json:"-"`
-	opError      error         `json:"-"`
+	FileName string       `json:"fileName"`
+	mutex    sync.Mutex   `json:"-"`
+	context  *ops.Context `json:"-"` // run for which the file has been created
+	offset   int64        `json:"-"` // position of the footer in the file
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpExportStatsDefault() }) } // register the operator for JSON decoding
@@ -69,51 +68,51 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	op.mutex.Lock()         // lock so a single thread is active
 	defer op.mutex.Unlock() // always release lock on exit
 
-	// write stats
-	if c.StatsProcessed == 0 {
-		err = op.writeHeader(c)
-		if err != nil {
+	// start a new file for the first frame of a run
+	if op.context != c {
+		if err = op.writeHeader(c); err != nil {
 			return nil, err
 		}
+		op.context = c
 	}
-	op.writeStats(f, c)
-	c.StatsProcessed++
-	if c.StatsProcessed == c.StatsTotal {
-		op.writeFooter(c)
+	if err = op.writeStats(f, c); err != nil {
+		return nil, err
 	}
-
 	return f, nil
 }
 
 func (op *OpExportStats) writeHeader(c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "Writing statistics header to file %s ...\n", op.FileName)
-	c.StatsFile, err = os.Create(op.FileName)
-	if err != nil {
+	header := sessionStatsHeader + "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n"
+	if err = os.WriteFile(op.FileName, []byte(header), 0666); err != nil {
 		return fmt.Errorf("error creating file %s: %s", op.FileName, err.Error())
 	}
-	c.StatsBufWriter = bufio.NewWriter(c.StatsFile)
-
-	c.StatsBufWriter.WriteString(sessionStatsHeader)
-	fmt.Fprintf(c.StatsBufWriter, "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
-
+	op.offset = int64(len(header))
 	return nil
 }
 
-func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) {
+// Appends a row for the given frame, and the footer. The next row will replace the footer, so the
+// file is complete after each frame, no matter how many frames follow or are dropped.
+func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "%d: writing statistics to file %s ...\n", f.ID, op.FileName)
 	s := f.Stats
-	fmt.Fprintf(c.StatsBufWriter, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
+	row := fmt.Sprintf("  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
 		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)
-}
 
-func (op *OpExportStats) writeFooter(c *ops.Context) {
-	fmt.Fprintf(c.Log, "Writing statistics footer to file %s ...\n", op.FileName)
-	fmt.Fprintf(c.StatsBufWriter, "]")
-	c.StatsBufWriter.WriteString(sessionStatsTrailer)
-	c.StatsBufWriter.Flush()
-	c.StatsBufWriter = nil
-	c.StatsFile.Close()
-	c.StatsFile = nil
+	file, err := os.OpenFile(op.FileName, os.O_WRONLY, 0)
+	if err == nil {
+		if err = file.Truncate(op.offset); err == nil {
+			_, err = file.WriteAt([]byte(row+"]"+sessionStatsTrailer), op.offset)
+		}
+		if errClose := file.Close(); err == nil {
+			err = errClose
+		}
+	}
+	if err != nil {
+		return fmt.Errorf("error writing file %s: %s", op.FileName, err.Error())
+	}
+	op.offset += int64(len(row))
+	return nil
 }
 
 const sessionStatsHeader = `<html>
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 53c9570..16e3358 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -60,8 +60,6 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		return nil, err
 	}
 	c.MaxThreads = int(maxThreads)
-	c.StatsTotal = len(insPerm)
-	c.StatsProcessed = 0
 
 	// Process each batch. The first batch sets the reference image
 	stack := (*fits.Image)(nil)
-- 
2.43.0


From 30a34eb88ddcd0bef49e7ce187e193b99616877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 21/90] fix: slope of linear regression

---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 86adef1..5750a46 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -580,7 +580,7 @@ func LinearRegression(xs, ys []float32) (slope, intercept, xmean, xstddev, ymean
 		diff := (xs[i] - xmean) * (ys[i] - ymean)
 		corr += diff
 	}
-	corr /= xstddev * ystddev * (float32(len(xs)) + 1)
+	corr /= xstddev * ystddev * float32(len(xs))
 
 	// calculate the regression line
 	slope = corr * ystddev / xstddev
-- 
2.43.0


From d42000c26a3e8dedfeeb05e4c5a2ebd807466b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 22/90] fix: stacking pairs weights with their values, averages
 what clipping leaves, and rejects unusable frames and weights instead of
 crashing or yielding NaN

---
 internal/ops/stack/stack.go | 52 ++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 699486b..be0b252 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -121,6 +121,13 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	if mode==StAuto { 
 		mode=autoSelectStackingMode(len(f))
 	}
+	// validate frames
+	if len(f)==0 { return nil, errors.New("no frames to stack") }
+	for _, l:=range f {
+		if len(l.Data)!=len(f[0].Data) || !fits.EqualInt32Slice(l.Naxisn, f[0].Naxisn) {
+			return nil, errors.New(fmt.Sprintf("%d: frame dimensions %v differ from %v, unable to stack", l.ID, l.Naxisn, f[0].Naxisn))
+		}
+	}
 	fmt.Fprintf(c.Log, "Stacking %d frames with stacking mode %d and sigma low %g high %g:\n", 
 				len(f), mode, op.SigmaLow, op.SigmaHigh)
 
@@ -128,6 +135,8 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	weights, err:=getWeights(f, op.Weighting)
 	if err!=nil { return nil, err }
 
+	if mode==StMADSigma && weights!=nil { return nil, errors.New("MADSigma stacking with weights is still unimplemented") }
+
 	// create return value array
 	data:=make([]float32,len(f[0].Data))
 
@@ -181,8 +190,6 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 			case StMADSigma:
 				if weights==nil {
 					clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
-				} else {
-					panic("MADSigma stacking with weights is still unimplemented")
 				}
 
 			case StLinearFit:
@@ -249,19 +256,22 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise))
+			weights[i]=1
+			if maxNoise>minNoise { weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise)) }
 		}
 	} else if weighting==StWeightInverseHFR { // HFR weighted stacking, smaller HFR gets bigger weight
 		minHFR, maxHFR:=float32(math.MaxFloat32), float32(-math.MaxFloat32)
 		for i:=0; i<len(f); i+=1 {
 			h:=f[i].HFR
+			if math.IsNaN(float64(h)) { return nil, errors.New(fmt.Sprintf("%d: Missing HFR information for HFR-weighted stacking", f[i].ID)) }
 			if h<minHFR { minHFR=h }
 			if h>maxHFR { maxHFR=h }
 		}		
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR))
+			weights[i]=1
+			if maxHFR>minHFR { weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR)) }
 		}
 	} else {
 		return nil, errors.New(fmt.Sprintf("Invalid weighting mode %d\n", weighting))
@@ -426,6 +436,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
 				res[i]=mean
+				if len(gatheredCur)==1 { res[i]=gatheredCur[0] }
             	break
             }
 		}
@@ -442,6 +453,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull:=make([]float32,len(lightsData))
 	weightsFull :=make([]float32,len(weights))
+	medianFull  :=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
 	// for all pixels
@@ -484,7 +496,10 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 		for {
 
 			// calculate median, mean, standard deviation and variance across gathered data
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			// from a copy of the data, as selecting the median reorders, and weights would no longer match
+			medianBuf:=medianFull[:len(gatheredCur)]
+			copy(medianBuf, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(medianBuf)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// remove out-of-bounds values
@@ -512,7 +527,11 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
-            	// calculate weighted mean
+            	// calculate weighted mean, or the median if no values remain
+            	if len(gatheredCur)==0 {
+            		res[i]=median
+            		break
+            	}
             	weightedSum, weightsSum:=float32(0), float32(0)
             	for i,_:=range gatheredCur {
             		weightedSum+=gatheredCur[i] * weightsCur[i]
@@ -593,7 +612,11 @@ func StackMADSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh floa
 			}
 		}
 
-		// calculate mean
+		// calculate mean, or the median if no values remain
+		if len(gatheredCur)==0 {
+			res[i]=median
+			continue
+		}
 		mean:=float32(0)
 		for _,g:=range(gatheredCur) { mean+=g }
 		mean/=float32(len(gatheredCur))
@@ -693,6 +716,7 @@ func StackWinsorSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh f
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
 				res[i]=mean
+				if len(gatheredCur)==1 { res[i]=gatheredCur[0] }
             	break
             }
         }
@@ -710,6 +734,7 @@ func StackWinsorSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh f
 func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull  :=make([]float32,len(lightsData))
 	weightsFull   :=make([]float32,len(weights))
+	medianFull    :=make([]float32,len(lightsData))
 	winsorizedFull:=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
@@ -753,7 +778,10 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 		for {
 
 			// calculate median and standard deviation across all frames
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			// from a copy of the data, as selecting the median reorders, and weights would no longer match
+			medianBuf:=medianFull[:len(gatheredCur)]
+			copy(medianBuf, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(medianBuf)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// calculate winsorized standard deviation (removes outliers/tighter)
@@ -809,7 +837,11 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
-            	// calculate weighted mean
+            	// calculate weighted mean, or the median if no values remain
+            	if len(gatheredCur)==0 {
+            		res[i]=median
+            		break
+            	}
             	weightedSum, weightsSum:=float32(0), float32(0)
             	for i,_:=range gatheredCur {
             		weightedSum+=gatheredCur[i] * weightsCur[i]
@@ -903,7 +935,7 @@ func StackLinearFit(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh flo
 				}				
 			}
 
-			if left==0 || len(gatheredCur)<3{
+			if left==0 || left==len(gatheredCur) || len(gatheredCur)<3{
             	break
             }
 			gatheredCur=gatheredCur[left:]
-- 
2.43.0


From 6fa06c565ca282b22a7492202c5f54a1cf8d2db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 23/90] fix: noise estimate skips pixels without data

---
 internal/stats/noise.go       | 9 +++++++--
 internal/stats/noise_amd64.go | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/stats/noise.go b/internal/stats/noise.go
index 730f043..f84db53 100644
--- a/internal/stats/noise.go
+++ b/internal/stats/noise.go
@@ -28,6 +28,7 @@ var enWeights []float32 = []float32{
 }
 
 // Estimate the level of gaussian noise on a natural image. Pure Go implementation
+// Skips pixels without data (NaN) in their neighborhood, e.g. at the borders of aligned images.
 // From J. Immerkær, “Fast Noise Variance Estimation”, Computer Vision and Image Understanding, Vol. 64, No. 2, pp. 300-302, Sep. 1996.
 func estimateNoisePureGo(data []float32, width int32) float32 {
 	var enOffsets []int32 = []int32{
@@ -37,7 +38,7 @@ func estimateNoisePureGo(data []float32, width int32) float32 {
     }
 
     height:=int32(len(data))/width
-    sum:=float32(0)
+    sum, skipped:=float32(0), int32(0)
     for y:=int32(1); y<height-1; y++ {
         rowSum:=float32(0)
     	for x:=int32(1); x<width-1; x++ {
@@ -46,10 +47,14 @@ func estimateNoisePureGo(data []float32, width int32) float32 {
 	    	for j,o:=range enOffsets {
 				conv+=data[i+o]*enWeights[j]
 	    	}
+	    	if math.IsNaN(float64(conv)) { // no data for some of the pixels
+	    		skipped++
+	    		continue
+	    	}
 	    	rowSum+=float32(math.Abs(float64(conv)))
 	    }
         sum+=rowSum
     }
-    factor:=float32(math.Sqrt(0.5*math.Pi)) / (6 * float32(width-2) * float32(height - 2))
+    factor:=float32(math.Sqrt(0.5*math.Pi)) / (6 * (float32(width-2) * float32(height - 2) - float32(skipped)))
     return sum*factor
 }
diff --git a/internal/stats/noise_amd64.go b/internal/stats/noise_amd64.go
index 226d55c..51a5b6b 100644
--- a/internal/stats/noise_amd64.go
+++ b/internal/stats/noise_amd64.go
@@ -26,7 +26,8 @@ import (
 // From J. Immerkær, “Fast Noise Variance Estimation”, Computer Vision and Image Understanding, Vol. 64, No. 2, pp. 300-302, Sep. 1996
 func EstimateNoise(data []float32, width int32) float32 {
     if cpuid.CPU.AVX2() {
-        return estimateNoiseAVX2(data, width)
+        if noise:=estimateNoiseAVX2(data, width); !math.IsNaN(float64(noise)) { return noise }
+        // else there are pixels without data, which only the fallback skips
     }
     return estimateNoisePureGo(data,width)
 }
-- 
2.43.0


From f639a966e7d978361304666e9809828dbe61287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 24/90] fix: noise-weighted stacking of frames without noise
 estimate yields an error instead of NaN

---
 internal/ops/stack/stack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index be0b252..8639dc2 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -250,6 +250,7 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		for i:=0; i<len(f); i+=1 {
 			if f[i].Stats==nil { return nil, errors.New(fmt.Sprintf("%d: Missing stats information for noise-weighted stacking", f[i].ID)) }
 			n:=f[i].Stats.Noise()
+			if math.IsNaN(float64(n)) { return nil, errors.New(fmt.Sprintf("%d: Missing noise information for noise-weighted stacking", f[i].ID)) }
 			if n<minNoise { minNoise=n }
 			if n>maxNoise { maxNoise=n }
 		}		
-- 
2.43.0


From 7af6c7e534cc858c15bf139ba972b979cd10abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:17 +0000
Subject: [PATCH 25/90] fix: default stacking sigmas rejected every value, as
 finding them by clipping percentage is not available

---
 README.md              | 4 ++--
 cmd/nightlight/main.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index b490c46..e9587cd 100644
--- a/README.md
+++ b/README.md
@@ -154,8 +154,8 @@ Available flags are:
 |stMode         |5           | stacking mode. 0=median, 1=mean, 2=sigma clip, 3=winsorized sigma clip, 4=linear fit, 5=auto |
 |stClipPercLow  |0.5         | set desired low clipping percentage for stacking, 0=ignore (overrides sigmas) |
 |stClipPercHigh |0.5         | set desired high clipping percentage for stacking, 0=ignore (overrides sigmas) |
-|stSigLow       |-1          | low sigma for stacking as multiple of standard deviations, -1: use clipping percentage to find |
-|stSigHigh      |-1          | high sigma for stacking as multiple of standard deviations, -1: use clipping percentage to find |
+|stSigLow       |2.75        | low sigma for stacking as multiple of standard deviations |
+|stSigHigh      |2.75        | high sigma for stacking as multiple of standard deviations |
 |stWeight       |0           | weights for stacking. 0=unweighted (default), 1=by exposure, 2=by inverse noise |
 |stMemory       |            | total MB of memory to use for stacking, default=80% of physical memory |
 |neutSigmaLow   |-1          | neutralize background color below this threshold, <0 = no op|
diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index d04d5fe..3bef22f 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -109,8 +109,8 @@ var normRange = flag.Int64("normRange", 0, "normalize range: 1=normalize to [0,1
 var normHist = flag.Int64("normHist", 4, "normalize histogram: 0=do not normalize, 1=location, 2=location and scale, 3=black point shift for RGB align, 4=auto")
 
 var stMode = flag.Int64("stMode", 6, "stacking mode. 0=median, 1=mean, 2=sigma clip, 3=winsorized sigma clip, 4=MAD sigma clip, 5=linear fit, 6=auto")
-var stSigLow = flag.Float64("stSigLow", -1, "low sigma for stacking as multiple of standard deviations, -1: use clipping percentage to find")
-var stSigHigh = flag.Float64("stSigHigh", -1, "high sigma for stacking as multiple of standard deviations, -1: use clipping percentage to find")
+var stSigLow = flag.Float64("stSigLow", 2.75, "low sigma for stacking as multiple of standard deviations")
+var stSigHigh = flag.Float64("stSigHigh", 2.75, "high sigma for stacking as multiple of standard deviations")
 var stWeight = flag.Int64("stWeight", 0, "weights for stacking. 0=unweighted (default), 1=by exposure, 2=by inverse noise")
 var stMemory = flag.Int64("stMemory", int64((totalMiBs*7)/10), "total MiB of memory to use for stacking, default=0.7x physical memory")
 
-- 
2.43.0


From 04c9c5e7581aed3c2f2f10435dff7922dcf51ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 26/90] fix: noise estimation of images narrower than eight
 pixels no longer reads outside the image

---
 internal/stats/noise_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/noise_amd64.go b/internal/stats/noise_amd64.go
index 51a5b6b..b216417 100644
--- a/internal/stats/noise_amd64.go
+++ b/internal/stats/noise_amd64.go
@@ -25,7 +25,7 @@ import (
 // Estimate the level of gaussian noise on a natural image.
 // From J. Immerkær, “Fast Noise Variance Estimation”, Computer Vision and Image Understanding, Vol. 64, No. 2, pp. 300-302, Sep. 1996
 func EstimateNoise(data []float32, width int32) float32 {
-    if cpuid.CPU.AVX2() {
+    if width>=8 && cpuid.CPU.AVX2() { // the vector code reads eight pixels of a line at a time
         if noise:=estimateNoiseAVX2(data, width); !math.IsNaN(float64(noise)) { return noise }
         // else there are pixels without data, which only the fallback skips
     }
-- 
2.43.0


From 3cffbfc4a9af6385a81b3d4920ac121f935cbe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 27/90] fix: batched stacking left out frames when reserving
 memory made the batches smaller

---
 internal/ops/stack/stackbatches.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 16e3358..0d0567d 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -170,6 +170,7 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 		if batchSize < 2 {
 			continue
 		}
+		numBatches = (numFrames + batchSize - 1) / batchSize // smaller batches may need more of them
 		if batchSize < int64(maxThreads) {
 			continue
 		}
-- 
2.43.0


From 291ebe533dac781ac1aa69b4a7c43a4e7abffa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 28/90] fix: batched stacking crashed when the first frame or a
 whole batch was dropped or batches differ in size, and underestimated the
 size of colour frames

---
 internal/ops/stack/stackbatches.go | 36 +++++++++++++++++-------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 0d0567d..2e24016 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -90,6 +90,12 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		if err != nil {
 			return nil, err
 		}
+		if batch == nil {
+			return nil, fmt.Errorf("batch %d of %d has no result", b+1, numBatches)
+		}
+		if stack != nil && !fits.EqualInt32Slice(stack.Naxisn, batch.Naxisn) {
+			return nil, fmt.Errorf("dimensions %v of batch %d differ from %v of the batches before", batch.Naxisn, b+1, stack.Naxisn)
+		}
 
 		// Update stack of stacks
 		if numBatches > 1 {
@@ -119,27 +125,25 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm []ops.Promise,
 	numBatches, batchSize, maxThreads int64, err error) {
 	numFrames := int64(len(ins))
-	width, height := int64(0), int64(0)
-	if c.DarkFrame != nil {
-		width, height = int64(c.DarkFrame.Naxisn[0]), int64(c.DarkFrame.Naxisn[1])
-	} else if c.FlatFrame != nil {
-		width, height = int64(c.FlatFrame.Naxisn[0]), int64(c.FlatFrame.Naxisn[1])
-	} else if len(ins) > 0 {
-		first, err := ins[0]()
-		if err != nil {
+	frame := c.DarkFrame
+	if frame == nil {
+		frame = c.FlatFrame
+	}
+	for i := 0; frame == nil && i < len(ins); i++ { // first frame which has not been dropped
+		if frame, err = ins[i](); err != nil {
 			return nil, 0, 0, 0, err
 		}
-		fmt.Fprintf(c.Log, "\nEstimating memory needs for %d images from %s:\n", numFrames, first.FileName)
-		width, height = int64(first.Naxisn[0]), int64(first.Naxisn[1])
-	} else {
+		if frame != nil {
+			fmt.Fprintf(c.Log, "\nEstimating memory needs for %d images from %s:\n", numFrames, frame.FileName)
+		}
+	}
+	if frame == nil {
 		return nil, 0, 0, 0, errors.New("No input files to prepare batches")
 	}
-	pixels := width * height
-	mPixels := float32(width) * float32(height) * 1e-6
-	bytes := pixels * 4
+	bytes := int64(frame.Pixels) * 4
 	mib := bytes / 1024 / 1024
-	fmt.Fprintf(c.Log, "%d images of %dx%d pixels (%.1f MPixels), which each take %d MiB in-memory as floating point.\n",
-		numFrames, width, height, mPixels, mib)
+	fmt.Fprintf(c.Log, "%d images of %s pixels (%.1f MPixels), which each take %d MiB in-memory as floating point.\n",
+		numFrames, frame.DimensionsToString(), float32(frame.Pixels)*1e-6, mib)
 
 	availableFrames := (int64(c.StackMemoryMB) * 1024 * 1024) / bytes // rounding down
 	maxThreads = int64(runtime.GOMAXPROCS(0))
-- 
2.43.0


From 02fb182a629b1a88790d49ae3ca444d167bce32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 29/90] fix: batched stacking processed its first input twice,
 to estimate its size and in its batch

---
 internal/ops/stack/stackbatches.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 2e24016..e9756bd 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -122,6 +122,18 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 	return stack, nil
 }
 
+// Returns a promise which hands out the given frame once, and falls back to the promise it came from afterwards
+func materialized(frame *fits.Image, promise ops.Promise) ops.Promise {
+	used := false
+	return func() (f *fits.Image, err error) {
+		if used {
+			return promise()
+		}
+		f, frame, used = frame, nil, true
+		return f, nil
+	}
+}
+
 func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm []ops.Promise,
 	numBatches, batchSize, maxThreads int64, err error) {
 	numFrames := int64(len(ins))
@@ -129,10 +141,14 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 	if frame == nil {
 		frame = c.FlatFrame
 	}
+	numEstimated := 0
 	for i := 0; frame == nil && i < len(ins); i++ { // first frame which has not been dropped
 		if frame, err = ins[i](); err != nil {
 			return nil, 0, 0, 0, err
 		}
+		ins = append([]ops.Promise(nil), ins...)
+		ins[i] = materialized(frame, ins[i]) // do not process it again in its batch
+		numEstimated = i + 1
 		if frame != nil {
 			fmt.Fprintf(c.Log, "\nEstimating memory needs for %d images from %s:\n", numFrames, frame.FileName)
 		}
@@ -196,6 +212,16 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 		}
 		fmt.Fprintf(c.Log, "Randomizing input files into batches...\n")
 		perm = rand.Perm(len(ins))
+		for i, p := range perm { // frames materialized above are part of the first batch, to free them early
+			if p < numEstimated && i >= int(batchSize) {
+				for j := 0; j < int(batchSize); j++ {
+					if perm[j] >= numEstimated {
+						perm[i], perm[j] = perm[j], perm[i]
+						break
+					}
+				}
+			}
+		}
 		for i := 0; i < int(numBatches); i++ {
 			from := i * int(batchSize)
 			to := (i + 1) * int(batchSize)
-- 
2.43.0


From 01c436e2fcb1b5fc27d6cf2dabb71ced2af8b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 30/90] fix: batches were weighted with the frames they were
 given, including frames dropped before stacking

---
 internal/fits/fits.go              | 3 +++
 internal/ops/stack/stack.go        | 2 ++
 internal/ops/stack/stackbatches.go | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index 097b2ab..56adda5 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -42,6 +42,7 @@ type Image struct {
 	Data   []float32     // The image data
 
 	Exposure float32     // Image exposure in seconds
+	NumStacked int32     // Number of frames stacked into this image, or zero if not known
 
 	Stats  *stats.Stats   // Basic image statistics: min, mean, max
 	MedianDiffStats *stats.Stats // Local median difference stats, for bad pixel detection, star detection
@@ -105,6 +106,7 @@ func NewImageFromImage(img *Image) *Image {
 		Pixels:   img.Pixels,
 		Data:     data,
 		Exposure: img.Exposure,
+		NumStacked: img.NumStacked,
 		Stats:    stats.NewStats(data, img.Naxisn[0]),
 		MedianDiffStats: nil,
 		Stars:    img.Stars,
@@ -173,6 +175,7 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 
 	binned:=NewImageFromNaxisn(binnedNaxisn, nil)
 	binned.ID, binned.FileName, binned.Exposure = src.ID, src.FileName, src.Exposure
+	binned.NumStacked = src.NumStacked
 
 	// calculate binned image pixel values
 	// FIXME: pretty inefficient?
diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 8639dc2..1eefc9b 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -230,6 +230,7 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	// Assemble into in-memory FITS
 	stack:=fits.NewImageFromNaxisn(f[0].Naxisn, data)
 	stack.Exposure = exposureSum
+	stack.NumStacked = int32(len(f))
 	return stack, nil
 }
 
@@ -962,6 +963,7 @@ func StackIncremental(stack, light *fits.Image, weight float32) *fits.Image {
 		}
 	} else {
 		stack.Exposure+=light.Exposure
+		stack.NumStacked+=light.NumStacked
 		for i,d:=range light.Data {
 			stack.Data[i]+=d*weight
 		}
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index e9756bd..da2ed73 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -98,6 +98,9 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		}
 
 		// Update stack of stacks
+		if batch.NumStacked > 0 {
+			batchFrames = int64(batch.NumStacked) // without the frames dropped in this batch
+		}
 		if numBatches > 1 {
 			stack = StackIncremental(stack, batch, float32(batchFrames))
 			stackFrames += batchFrames
-- 
2.43.0


From c1c3c15250be38f8240241e62a663536e3c03c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 31/90] fix: bad pixel removal on color filter arrays includes
 pixels in the first row and column

---
 internal/ops/pre/badpixels_bayer.go | 34 ++++++++++++-----------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/internal/ops/pre/badpixels_bayer.go b/internal/ops/pre/badpixels_bayer.go
index 10279aa..af56436 100644
--- a/internal/ops/pre/badpixels_bayer.go
+++ b/internal/ops/pre/badpixels_bayer.go
@@ -39,7 +39,7 @@ func CosmeticCorrectionBayer(data []float32, width int32, debayer, cfa string, s
 	case "G", "g":
 		return CosmeticCorrectionBayerGreen(median, data, width, xOffset, yOffset, sigmaLow, sigmaHigh), nil
 	case "B", "b":
-		return CosmeticCorrectionBayerRedOrBlue(median, data, width, xOffset+1, yOffset+1, sigmaLow, sigmaHigh), nil
+		return CosmeticCorrectionBayerRedOrBlue(median, data, width, 1-xOffset, 1-yOffset, sigmaLow, sigmaHigh), nil
 	default:
 		return 0, errors.New("Unknown debayering value " + debayer)
 	}
@@ -131,6 +131,11 @@ var gOffsets = []pairOfint32{
 	{0, 2},
 }
 
+// Returns the column of the first green pixel in row y
+func firstGreenX(xOffset, yOffset, y int32) int32 {
+	return (xOffset + yOffset + y + 1) & 1
+}
+
 // Apply median filter to CFA data red or blue channels
 func MedianFilterBayerGreen(res, data []float32, width, xOffset, yOffset int32) {
 	height := int32(len(data)) / width
@@ -148,10 +153,8 @@ func MedianFilterBayerGreen(res, data []float32, width, xOffset, yOffset int32)
 	}*/
 
 	// for all RGGB boxes
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+	for y := int32(0); y < height; y++ {
+		for x := firstGreenX(xOffset, yOffset, y); x < width; x += 2 {
 			numGathered := 0
 			// for the local neighborhood
 			for _, nOffsets := range gOffsets {
@@ -245,14 +248,11 @@ func DeltaStatsBayerGreen(median, data []float32, width, xOffset, yOffset int32)
 	// for all rows
 	deltaSum := float32(0)
 	deltaNum := int32(0)
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-
+	for y := int32(0); y < height; y++ {
 		// for all pixels in the row
 		deltaRowSum := float32(0)
 		deltaRowNum := int32(0)
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := firstGreenX(xOffset, yOffset, y); x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			deltaRowSum += delta
@@ -267,14 +267,11 @@ func DeltaStatsBayerGreen(median, data []float32, width, xOffset, yOffset int32)
 	// for all rows
 	deltaSum = float32(0)
 	deltaNum = int32(0)
-	colorOffsetX = int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-
+	for y := int32(0); y < height; y++ {
 		// for all pixels in the row
 		deltaRowSum := float32(0)
 		deltaRowNum := int32(0)
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := firstGreenX(xOffset, yOffset, y); x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			deltaSq := (delta - mean) * (delta - mean)
@@ -333,12 +330,9 @@ func ReplaceOutliersBayerGreen(median, data []float32, width, xOffset, yOffset i
 	numRemoved = 0
 
 	// for all rows
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-
+	for y := int32(0); y < height; y++ {
 		// for all pixels in the row
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := firstGreenX(xOffset, yOffset, y); x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			if delta < threshLow || delta > threshHigh {
-- 
2.43.0


From 2a45bf0ede0de69eb5b35d3b8092ce0c0de57243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 32/90] fix: debayering averages the neighbors available at
 image edges

---
 internal/ops/pre/debayer.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/internal/ops/pre/debayer.go b/internal/ops/pre/debayer.go
index 0527432..34e68d4 100644
--- a/internal/ops/pre/debayer.go
+++ b/internal/ops/pre/debayer.go
@@ -18,7 +18,6 @@ package pre
 
 import (
 	"errors"
-	"math"
 )
 
 
@@ -93,13 +92,13 @@ func DebayerBilinearRGGBToRed(data []float32, width, xOffset, yOffset int32) (rs
 			r:=data[srcOffset]
 			rRight, rDown, rRD:=r, r, r
 			if col+xOffset<width-2 {
-				rRight=data[srcOffset+2]
+				rRight, rRD=data[srcOffset+2], data[srcOffset+2]
 	 			if row+yOffset<height-2 {
 	 				rDown=data[srcOffset+  2*width]
 	 				rRD  =data[srcOffset+2+2*width]
 	 			}			
 			} else if row+yOffset<height-2 {
-	 				rDown=data[srcOffset+2*width]
+	 				rDown, rRD=data[srcOffset+2*width], data[srcOffset+2*width]
 			}
 			//LogPrintf("r%d c%d: r %.f right %.f down %.f RD %.f\n", row, col, r, rRight, rDown, rRD)
 
@@ -123,8 +122,6 @@ func DebayerBilinearRGGBToRed(data []float32, width, xOffset, yOffset int32) (rs
 	return rs, adjWidth
 }
 
-const sqrt2 float32 = float32(math.Sqrt2)
-
 func DebayerBilinearRGGBToGreen(data []float32, width, xOffset, yOffset int32) (gs []float32, adjWidth int32) {
 	height   :=int32(len(data))/width
 	adjWidth  =(width-xOffset)  & ^1            // ignore last column and row in odd-sized images
@@ -158,31 +155,31 @@ func DebayerBilinearRGGBToGreen(data []float32, width, xOffset, yOffset int32) (
 			g1:=data[srcOffset+1      ]
 			g2:=data[srcOffset  +width]
 
-			g1Left:=(2.0  *g1 + sqrt2*g2)*(1.0/(2.0+sqrt2))
-			g2Up  :=(sqrt2*g1 + 2.0  *g2)*(1.0/(2.0+sqrt2))
+			sumLU, numLU:=g1+g2, float32(2)
 			if col+xOffset>0 {
-				g1Left=data[srcOffset-1]
+				sumLU+=data[srcOffset-1]         // left
+				numLU++
 			}
  			if row+yOffset>0 {
- 				g2Up=data[srcOffset-width]
+ 				sumLU+=data[srcOffset-width]     // up
+ 				numLU++
  			}			
 
-			g2Right:=(2.0  *g1 + sqrt2*g2)*(1.0/(2.0+sqrt2))
-			g1Down :=(sqrt2*g1 + 2.0  *g2)*(1.0/(2.0+sqrt2))
+			sumRD, numRD:=g1+g2, float32(2)
 			if col+xOffset<width-2 {
-				g2Right=data[srcOffset+2+width]
+				sumRD+=data[srcOffset+2+width]   // right
+				numRD++
 			}
  			if row+yOffset<height-2 {
- 				g1Down=data[srcOffset+1+2*width]
+ 				sumRD+=data[srcOffset+1+2*width] // down
+ 				numRD++
  			}			
 
-			// LogPrintf("r%d c%d: g1 %.f g2 %.f g1Left %.f g1Down %.f g2Up %.f g2Right %.f \n", row, col, g1, g2, g1Left, g1Down, g2Up, g2Right)
-
 			// interpolate and write green values
-			gs[destOffset           ]=0.25*(g1+g2+g1Left+g2Up)
+			gs[destOffset           ]=sumLU/numLU
 			gs[destOffset+1         ]=      g1
  			gs[destOffset  +adjWidth]=         g2
- 			gs[destOffset+1+adjWidth]=0.25*(g1+g2+g2Right+g1Down)
+ 			gs[destOffset+1+adjWidth]=sumRD/numRD
 		}
 	}
 
@@ -231,13 +228,13 @@ func DebayerBilinearRGGBToBlue(data []float32, width, xOffset, yOffset int32) (b
 			b:=data[srcOffset+1+width]
 			bLeft, bUp, bLU:=b, b, b
 			if col+xOffset>0 {
-				bLeft=data[srcOffset-1+width]
+				bLeft, bLU=data[srcOffset-1+width], data[srcOffset-1+width]
 	 			if row+yOffset>0 {
 	 				bUp=data[srcOffset+1-width]
 	 				bLU=data[srcOffset-1-width]
 	 			}			
 			} else if row+yOffset>0 {
-	 				bUp=data[srcOffset+1-width]
+	 				bUp, bLU=data[srcOffset+1-width], data[srcOffset+1-width]
 			}
 			// LogPrintf("r%d c%d: b %.f left %.f up %.f LU %.f\n", row, col, b, bLeft, bUp, bLU)
 
-- 
2.43.0


From f71fd7ff4353db84f189f98b123878049530d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:29 +0000
Subject: [PATCH 33/90] fix: reject images too small for debayering instead of
 crashing

---
 internal/ops/pre/preprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index e40590c..9b4b449 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -243,6 +243,9 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	if err != nil {
 		return nil, err
 	}
+	if len(f.Data) == 0 {
+		return nil, fmt.Errorf("%d: Image is too small for debayering", f.ID)
+	}
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
 	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
-- 
2.43.0


From 03e7bb3bc9309703900449de0918a1e24c31e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 34/90] fix: binning of color images averages every channel,
 images smaller than one bin are rejected

---
 internal/fits/fits.go          | 33 ++++++++++++++++++++-------------
 internal/ops/pre/preprocess.go |  3 +++
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index 56adda5..083679a 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -168,7 +168,8 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	binnedPixels:=int32(1)
 	binnedNaxisn:=make([]int32, len(src.Naxisn))
 	for i,originalN:=range(src.Naxisn) {
-		binnedN:=originalN/n
+		binnedN:=originalN
+		if i<2 { binnedN=originalN/n } // color channels are binned separately
 		binnedNaxisn[i]=binnedN
 		binnedPixels*=binnedN
 	}
@@ -180,19 +181,25 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	// calculate binned image pixel values
 	// FIXME: pretty inefficient?
 	normalizer:=1.0/float32(n*n)
-	for y:=int32(0); y<binnedNaxisn[1]; y++ {
-		for x:=int32(0); x<binnedNaxisn[0]; x++ {
-			sum:=float32(0)
-			for yoff:=int32(0); yoff<n; yoff++ {
-				for xoff:=int32(0); xoff<n; xoff++ {
-					origPos:=(y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
-					sum+=src.Data[origPos]
+	channels:=int32(1)
+	for _,naxis:=range(src.Naxisn[2:]) { channels*=naxis }
+	for ch:=int32(0); ch<channels; ch++ {
+		srcData   :=src   .Data[ch*src   .Naxisn[0]*src   .Naxisn[1]:]
+		binnedData:=binned.Data[ch*binned.Naxisn[0]*binned.Naxisn[1]:]
+		for y:=int32(0); y<binnedNaxisn[1]; y++ {
+			for x:=int32(0); x<binnedNaxisn[0]; x++ {
+				sum:=float32(0)
+				for yoff:=int32(0); yoff<n; yoff++ {
+					for xoff:=int32(0); xoff<n; xoff++ {
+						origPos:=(y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
+						sum+=srcData[origPos]
+					}
 				}
-			}
-			avg:=sum*normalizer
-			binnedPos:=y*binned.Naxisn[0] + x
-			binned.Data[binnedPos]=avg
-		}		
+				avg:=sum*normalizer
+				binnedPos:=y*binned.Naxisn[0] + x
+				binnedData[binnedPos]=avg
+			}		
+		}
 	}
 
 	return binned
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 9b4b449..dec4ef5 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -331,6 +331,9 @@ func (op *OpBin) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err e
 	if op.BinSize <= 1 {
 		return f, nil
 	}
+	if len(f.Naxisn) < 2 || f.Naxisn[0] < op.BinSize || f.Naxisn[1] < op.BinSize {
+		return nil, fmt.Errorf("%d: Image with dimensions %v is too small for %dx%d binning", f.ID, f.Naxisn, op.BinSize, op.BinSize)
+	}
 	f = fits.NewImageBinNxN(f, op.BinSize)
 	fmt.Fprintf(c.Log, "%d: After %xx%d binning, new image size %dx%d\n", f.ID, op.BinSize, op.BinSize, f.Naxisn[0], f.Naxisn[1])
 	return f, nil
-- 
2.43.0


From 3f35722a3bfd4ec9f4b414f9a273eb3b2650da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 35/90] fix: midtones correction yields black instead of
 negative values below the black point

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 9896fb4..c325dc3 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -219,7 +219,7 @@ func pfMidtones(data []float32, params interface{}) {
 	for i, d:=range data {
 		value:=d*(mid-1.0) / ((2.0*mid -1.0)*d - mid)
 		if value<clipLow { 
-			value=0 
+			value=clipLow 
 	    } else if value>clipHigh {
 	    	value=1
 	    }
-- 
2.43.0


From b25f002defb972754ad559c0aa55d7a6577c2246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 36/90] fix: background extraction masks stars in every grid
 cell they cover

---
 internal/ops/pre/background.go | 48 ++++++++++++++--------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index de5da64..aba5419 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -115,40 +115,32 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 func (b *Background) binStarsIntoCells(stars []star.Star) {
 	cs := b.CellStars
 	for _, s := range stars {
-		sx, sy, hfr := s.X, s.Y, s.HFR*b.HFRFactor
-		// Trace 3x3 grid centered around the star position
-		for yOff := -1; yOff < 2; yOff++ {
-			for xOff := -1; xOff < 2; xOff++ {
-				x := sx + float32(xOff)*hfr
-				y := sy + float32(yOff)*hfr
-
-				cellX := int32(x / b.GridSpacingX)
-				if cellX < 0 {
-					cellX = 0
-				}
-				if cellX >= b.GridCellsX {
-					cellX = b.GridCellsX - 1
-				}
-
-				cellY := int32(y / b.GridSpacingY)
-				if cellY < 0 {
-					cellY = 0
-				}
-				if cellY >= b.GridCellsY {
-					cellY = b.GridCellsY - 1
-				}
-
+		// The star covers all cells touched by the square around it. Cell boundaries are rounded to full pixels
+		r := s.HFR*b.HFRFactor + 0.5
+		xl, xh := cellRange(s.X-r, s.X+r, b.GridSpacingX, b.GridCellsX)
+		yl, yh := cellRange(s.Y-r, s.Y+r, b.GridSpacingY, b.GridCellsY)
+		for cellY := yl; cellY <= yh; cellY++ {
+			for cellX := xl; cellX <= xh; cellX++ {
 				cellOffset := cellY*b.GridCellsX + cellX
-				c := cs[cellOffset]
-				l := len(c)
-				if l == 0 || c[l-1] != s {
-					cs[cellOffset] = append(c, s)
-				}
+				cs[cellOffset] = append(cs[cellOffset], s)
 			}
 		}
 	}
 }
 
+// Returns the range of cells covering the given range of coordinates, limited to the grid
+func cellRange(from, to, spacing float32, cells int32) (first, last int32) {
+	limit := func(c float32) int32 {
+		if !(c > 0) {
+			return 0
+		} else if c >= float32(cells) {
+			return cells - 1
+		}
+		return int32(c)
+	}
+	return limit(from / spacing), limit(to / spacing)
+}
+
 // Initialize background by approximating each grid cell with a linear gradient
 func (b *Background) init(src []float32, sigma float32) {
 	bufSize := int32(b.GridSpacingX+1.5) * int32(b.GridSpacingY+1.5)
-- 
2.43.0


From 1dd47f596f5c877967492538a27cae84d1fe0aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 37/90] fix: star detection does not mistake pixels at the
 opposite image edge for neighbors, which moved stars outside the image and
 crashed

---
 internal/star/findstars.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 2ccc4a8..a3718e9 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -280,15 +280,16 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 		shiftSquared:=float32(math.MaxFloat32)
 		for round:=int32(0); shiftSquared>0.0001 && round<10; round++ {
 			// calculate star mass and first moments from current x,y
+			sx, sy:=s.Index % width, s.Index / width
 			xMoment, yMoment:=float32(0), float32(0)
 			mass:=float32(0)
 			for y:=-radius; y<=radius; y++ {
 				for x:=-radius; x<=radius; x++ {
 					index:=s.Index+y*int32(width)+x
 					value:=float32(0)
-					if index>=0 && int(index)<len(data) {
+					if sx+x>=0 && sx+x<width && index>=0 && int(index)<len(data) {
 						value=data[index]-threshold
-						if value<0 { value=0 }
+						if !(value>0) { value=0 }
 					}
 					xMoment+=float32(x)*value
 					yMoment+=float32(y)*value
@@ -297,18 +298,16 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 			}
 
 			// update x and y from moments over mass
-			x:=s.Index % int32(width)
-			y:=s.Index / int32(width)
 			if mass==0.0 { mass=1e-8 }
 			deltaX:=(xMoment)/mass
 			deltaY:=(yMoment)/mass
-			newX:=float32(x)+deltaX
-			newY:=float32(y)+deltaY
+			newX:=float32(sx)+deltaX
+			newY:=float32(sy)+deltaY
 
 			preciseDeltaX:=newX-s.X
 			preciseDeltaY:=newY-s.Y
 			shiftSquared  =preciseDeltaX*preciseDeltaX + preciseDeltaY*preciseDeltaY
-			index:=s.Index + width*int32(deltaY+0.5)+int32(deltaX+0.5)
+			index:=width*int32(newY+0.5)+int32(newX+0.5)
 			value:=float32(0)
 			if index>=0 && int(index)<len(data) {
 				value=float32(data[index])
@@ -329,6 +328,8 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 	avgHFR=float32(0)
 
 	for _,s:=range stars {
+		sx:=s.Index % width
+
 		// calculate mass, moment and HFR
 		moment, mass, pixels:=float32(0), float32(0), int32(0)
 		rad:=int32(math.Ceil(float64(radius)))
@@ -341,7 +342,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 				index:=s.Index+y*width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if sx+x>=0 && sx+x<width && index>=0 && index<int32(len(data)) {
 					v:=data[index]-location
 					if v>0 { value=v }
 				}
@@ -367,7 +368,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 				index:=s.Index+y*width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if sx+x>=0 && sx+x<width && index>=0 && index<int32(len(data)) {
 					v:=data[index]-location
 					if v>0 { value=v }
 				}
-- 
2.43.0


From b38a7c5fd5064d451dbcf4b25d5c78583f60bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 38/90] fix: order detected stars by their final mass

---
 internal/star/findstars.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index a3718e9..26ed84b 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -83,6 +83,7 @@ func FindStars(data []float32, width int32, location, scale, starSig, bpSigma, s
 
 	// remove implausible stars based on HFR and mass
 	stars, avgHFR=calcAndFilterHalfFluxRadius(stars, data, width, float32(radius), location, starInOut)
+	QSortStarsDesc(stars)  // masses have been updated
 	//LogPrintf("%d (%.2g%%) stars left after HFR calc, avg HFR %.2g\n", len(stars), (100.0*float32(len(stars))/float32(len(data))), avgHFR)
 
 	// maxIndex:=10
-- 
2.43.0


From 731d3115baadb387bf0020fae196ec94dcc2aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 39/90] fix: star detection ignores infinite pixels instead of
 crashing on them

---
 internal/star/findstars.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 26ed84b..fedfe0d 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -107,7 +107,7 @@ func findBrightPixels(data []float32, width int32, threshold float32, radius int
 	stars:=make([]Star,len(data)/100)[:0] // []Star{}
 
 	for i,v :=range data {
-		if v>threshold {
+		if v>threshold && v<=math.MaxFloat32 {
 			is:=Star{Index:int32(i), Value:v, X:float32(int32(i) % width), Y:float32(int32(i) / width), Mass:v, HFR:1}
 
 			// check if within radius distance of the previously detected candidate star to optimize memory usage
@@ -290,7 +290,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 					value:=float32(0)
 					if sx+x>=0 && sx+x<width && index>=0 && int(index)<len(data) {
 						value=data[index]-threshold
-						if !(value>0) { value=0 }
+						if !(value>0 && value<=math.MaxFloat32) { value=0 }
 					}
 					xMoment+=float32(x)*value
 					yMoment+=float32(y)*value
@@ -345,7 +345,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 				value:=float32(0.0)
 				if sx+x>=0 && sx+x<width && index>=0 && index<int32(len(data)) {
 					v:=data[index]-location
-					if v>0 { value=v }
+					if v>0 && v<=math.MaxFloat32 { value=v }
 				}
 				moment  +=distance*value
 				mass    +=value
@@ -371,7 +371,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 				value:=float32(0.0)
 				if sx+x>=0 && sx+x<width && index>=0 && index<int32(len(data)) {
 					v:=data[index]-location
-					if v>0 { value=v }
+					if v>0 && v<=math.MaxFloat32 { value=v }
 				}
 				innerMass  +=value
 				innerPixels++
-- 
2.43.0


From f4539b318e0f20905ad9557fc5c483f9d58290b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 40/90] fix: bad pixel rejection in star detection works on
 small images

---
 internal/star/findstars.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index fedfe0d..383a163 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -140,6 +140,7 @@ func rejectBadPixels(stars []Star, data []float32, width int32, sigma float32, m
 	if medianDiffStats==nil {
 		// Estimate standard deviation of pixels from local neighborhood median based on random 1% of pixels
 		numSamples:=len(data)/100
+		if numSamples<100 { numSamples=100 } // small images
 		samples:=make([]float32,numSamples)
 		rng:=fastrand.RNG{}
 		for i:=0; i<numSamples; i++ {
-- 
2.43.0


From f42ef096d44276e4a29b600b90c626585dc16e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 41/90] fix: star detection on color images reports positions
 inside the image

---
 internal/ops/pre/preprocess.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index dec4ef5..e81ff03 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -458,7 +458,11 @@ func (op *OpStarDetect) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 		return nil, errors.New("missing stats")
 	}
 
-	f.Stars, _, f.HFR = star.FindStars(f.Data, f.Naxisn[0], f.Stats.Location(), f.Stats.Scale(), op.Sigma, op.BadPixelSigma, op.InOutRatio, op.Radius, f.MedianDiffStats)
+	data := f.Data
+	if len(f.Naxisn) > 2 {
+		data = data[:f.Naxisn[0]*f.Naxisn[1]] // color images: first channel only, stars are positions in the image plane
+	}
+	f.Stars, _, f.HFR = star.FindStars(data, f.Naxisn[0], f.Stats.Location(), f.Stats.Scale(), op.Sigma, op.BadPixelSigma, op.InOutRatio, op.Radius, f.MedianDiffStats)
 	fmt.Fprintf(c.Log, "%d: Stars %d HFR %.2f %v\n", f.ID, len(f.Stars), f.HFR, f.Stats)
 
 	if op.Save != nil && op.Save.FilePattern != "" {
-- 
2.43.0


From 901dca89ad2d5f0d4599d59321820c0199ae2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 42/90] fix: three-point transformations work when the first
 two points share a row

---
 internal/star/coord.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/star/coord.go b/internal/star/coord.go
index 9c69bc2..5487574 100644
--- a/internal/star/coord.go
+++ b/internal/star/coord.go
@@ -116,17 +116,20 @@ func IdentityTransform2D() Transform2D {
 // system, and corresponding reference points in second coordinate system.
 // p1, p2, p3 are in the first system. p1p, p2p, p3p are in the second. 
 func NewTransform2D(p1, p2, p3, p1p, p2p, p3p Point2D) (Transform2D, error) {
-	a:=( (p3p.X-p1p.X)*(p2.Y-p1.Y) - (p2p.X-p1p.X)*(p3.Y-p1.Y) ) /
-	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
+	denom:=(p2.Y-p1.Y)*(p3.X-p1.X) - (p2.X-p1.X)*(p3.Y-p1.Y)
+	if denom==0 { // the points lie on a line
+		return Transform2D{}, errors.New("divide by zero")
+	}
+
+	a:=( (p3p.X-p1p.X)*(p2.Y-p1.Y) - (p2p.X-p1p.X)*(p3.Y-p1.Y) ) / denom
 
-	b:=( (p2p.X-p1p.X) - a*(p2.X-p1.X) ) / (p2.Y-p1.Y)
+	b:=( (p2p.X-p1p.X)*(p3.X-p1.X) - (p3p.X-p1p.X)*(p2.X-p1.X) ) / denom
 
 	c:=p1p.X - a*p1.X - b*p1.Y
 
-	d:=( (p3p.Y-p1p.Y)*(p2.Y-p1.Y) - (p2p.Y-p1p.Y)*(p3.Y-p1.Y) ) /
-	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
+	d:=( (p3p.Y-p1p.Y)*(p2.Y-p1.Y) - (p2p.Y-p1p.Y)*(p3.Y-p1.Y) ) / denom
 
-	e:=( (p2p.Y-p1p.Y) - d*(p2.X-p1.X) ) / (p2.Y-p1.Y)
+	e:=( (p2p.Y-p1p.Y)*(p3.X-p1.X) - (p3p.Y-p1p.Y)*(p2.X-p1.X) ) / denom
 
 	f:=p1p.Y - d*p1.X - e*p1.Y   
 
-- 
2.43.0


From 38a4f1486907d433ffc5491239093c4136e9a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 43/90] fix: alignment prefers the match that fits most stars
 over one that fits three stars perfectly

---
 internal/star/align.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/star/align.go b/internal/star/align.go
index 8b12768..4c23e6c 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -159,6 +159,7 @@ func (a *Aligner) closestTriangleMatches(triangles []Triangle) (matches []Match)
 func (a *Aligner) findBestMatch(matches []Match, triangles []Triangle, stars []Star, id int) (trans Transform2D, residual float32) {
 	bestTrans:=Transform2D{}
 	bestResidualError:=float32(math.MaxFloat32)
+	bestCost:=math.Inf(1)
 	refTriangles, refStars:=a.RefTriangles, a.RefStars
 
 	distSquaredLimit:=float32(8.0*8.0)         // Distance limit to consider a star a match
@@ -242,12 +243,16 @@ func (a *Aligner) findBestMatch(matches []Match, triangles []Triangle, stars []S
 		x:=result.X
 		trans=Transform2D{float32(x[0]), float32(x[1]), float32(x[2]), float32(x[3]), float32(x[4]), float32(x[5])}
 		residualError:=float32(result.F)
-		// Update best solution found, if applicable
-		if residualError<bestResidualError {
+		// Update best solution found, if applicable. Unmatched stars count with the distance limit, as any three stars can
+		// be made to fit perfectly by a transformation which misses all the others
+		distSum:=result.F*float64(numMatches)
+		cost:=distSum*distSum + float64(distSquaredLimit)*float64(len(stars)-numMatches)
+		if cost<bestCost {
 			bestTrans=trans
 			bestResidualError=residualError
+			bestCost=cost
 
-			if bestResidualError<earlyAbortForResidualError { 
+			if bestResidualError<earlyAbortForResidualError && (numMatches==len(stars) || (numMatches>3 && 2*numMatches>len(stars))) {
 				return bestTrans, bestResidualError
 			}
 		}
-- 
2.43.0


From 8c21242ec7de74c18aa15972242c0a762bc61dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 44/90] fix: alignment to a reference frame with too few stars
 skips frames instead of crashing

---
 internal/star/align.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 4c23e6c..678814e 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -132,6 +132,7 @@ func generateTriangles(stars []Star, indices []int, scaleFactor float32) []Trian
 // Finds the closest matches between the given triangles and the reference triangles
 func (a *Aligner) closestTriangleMatches(triangles []Triangle) (matches []Match) {
 	kdt:=a.RefTri3DT
+	if len(kdt)==0 { return nil } // too few reference stars for triangles
 	matches=make([]Match, len(triangles))
 
 	for i, tri := range triangles {
-- 
2.43.0


From a8536529d42cf06638ccc021266e76efadcf21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 45/90] fix: projection keeps the last row and column and does
 not spread undefined pixels on whole-pixel shifts

---
 internal/fits/project.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 785bc5b..1f50a3b 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -46,8 +46,14 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 
 			// perform bilinear interpolation
 			xl, yl := int32(math.Floor(float64(proj.X))), int32(math.Floor(float64(proj.Y)))
-			xh, yh := xl+1, yl+1
 			xr, yr := proj.X-float32(xl), proj.Y-float32(yl)
+			xh, yh := xl, yl // exact hits on a pixel row or column need no neighbor
+			if xr != 0 {
+				xh = xl + 1
+			}
+			if yr != 0 {
+				yh = yl + 1
+			}
 
 			if xl < 0 || xh >= origWidth || yl < 0 || yh >= img.Naxisn[1] {
 				// Replace out of bounds values with not a number.
@@ -61,16 +67,24 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			}
 
 			xlyl := xl + yl*origWidth
-			xhyl := xlyl + 1         // xh+yl*origWidth
-			xlyh := xlyl + origWidth // xl+yh*origWidth
-			xhyh := xhyl + origWidth // xh+yh*origWidth
+			xhyl := xh + yl*origWidth
+			xlyh := xl + yh*origWidth
+			xhyh := xh + yh*origWidth
 
-			vyl := d[xlyl]*(1-xr) + d[xhyl]*xr
-			vyh := d[xlyh]*(1-xr) + d[xhyh]*xr
-			v := vyl*(1-yr) + vyh*yr
+			vyl := interpolate(d[xlyl], d[xhyl], xr)
+			vyh := interpolate(d[xlyh], d[xhyh], xr)
+			v := interpolate(vyl, vyh, yr)
 
 			res.Data[col+row*destWidth] = v
 		}
 	}
 	return res, nil
 }
+
+// Interpolates linearly between a and b. Does not touch b for zero r, as it may be infinite or not a number.
+func interpolate(a, b, r float32) float32 {
+	if r == 0 {
+		return a
+	}
+	return a*(1-r) + b*r
+}
-- 
2.43.0


From d6240140cc14a1a34c766c967b06184065d0756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 46/90] fix: projection moves every channel of color images

---
 internal/fits/project.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 1f50a3b..19ecc5b 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -23,6 +23,7 @@ import (
 
 // Projects an image into a new coordinate system with the given transformation.
 // Fills in missing pixels with the given out of bounds value. Uses bilinear interpolation for now.
+// Takes width and height of the result from the given destination size, and projects every color channel of the image.
 func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBounds float32) (res *Image, err error) {
 	// Invert transformation so we can sample from the target coordinate system PoV
 	invTrans, err := trans.Invert()
@@ -31,15 +32,23 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 	}
 
 	// Create new FITS image for the result
-	destWidth := destNaxisn[0]
-	res = NewImageFromNaxisn(destNaxisn, nil)
+	destWidth, destHeight := destNaxisn[0], destNaxisn[1]
+	resNaxisn := append([]int32{destWidth, destHeight}, img.Naxisn[2:]...)
+	res = NewImageFromNaxisn(resNaxisn, nil)
 	res.ID, res.Exposure = img.ID, img.Exposure
 
 	// Resample image from the target coordinate system PoV
-	d := img.Data
-	origWidth := img.Naxisn[0]
+	origWidth, origHeight := img.Naxisn[0], img.Naxisn[1]
+	origPlane, destPlane := int(origWidth)*int(origHeight), int(destWidth)*int(destHeight)
+	for start, destStart := 0, 0; start < len(img.Data); start, destStart = start+origPlane, destStart+destPlane {
+		projectPlane(res.Data[destStart:destStart+destPlane], destWidth, destHeight, img.Data[start:start+origPlane], origWidth, origHeight, invTrans, outOfBounds)
+	}
+	return res, nil
+}
 
-	for row := int32(0); row < destNaxisn[1]; row++ {
+// Projects a single plane of image data into a new coordinate system, given the inverse transformation
+func projectPlane(dest []float32, destWidth, destHeight int32, d []float32, origWidth, origHeight int32, invTrans star.Transform2D, outOfBounds float32) {
+	for row := int32(0); row < destHeight; row++ {
 		for col := int32(0); col < destWidth; col++ {
 			pt := star.Point2D{X: float32(col), Y: float32(row)}
 			proj := invTrans.Apply(pt)
@@ -55,14 +64,14 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 				yh = yl + 1
 			}
 
-			if xl < 0 || xh >= origWidth || yl < 0 || yh >= img.Naxisn[1] {
+			if xl < 0 || xh >= origWidth || yl < 0 || yh >= origHeight {
 				// Replace out of bounds values with not a number.
 				// Stacking will exclude NaNs. Note, however, that
 				// other operations will fail miserably. Including
 				// all partitioning and sorting-based operations
 				// like median, because IEEE NaN does not compare
 				// equal to itself.
-				res.Data[col+row*destWidth] = outOfBounds
+				dest[col+row*destWidth] = outOfBounds
 				continue
 			}
 
@@ -75,10 +84,9 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			vyh := interpolate(d[xlyh], d[xhyh], xr)
 			v := interpolate(vyl, vyh, yr)
 
-			res.Data[col+row*destWidth] = v
+			dest[col+row*destWidth] = v
 		}
 	}
-	return res, nil
 }
 
 // Interpolates linearly between a and b. Does not touch b for zero r, as it may be infinite or not a number.
-- 
2.43.0


From 7468240d11fa5e568f5a6139feff8a0a29baf4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 47/90] fix: aligning with reference location fill but without
 reference histogram is an error instead of a crash

---
 internal/ops/post/postprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index a31d57c..f47a60d 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -167,6 +167,9 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 		case OOBModeNaN:
 			outOfBounds = float32(math.NaN())
 		case OOBModeRefLocation:
+			if c.MatchHisto == nil {
+				return nil, errors.New("missing reference histogram for out of bounds fill value")
+			}
 			outOfBounds = c.MatchHisto.Location()
 		case OOBModeOwnLocation:
 			outOfBounds = f.Stats.Location()
-- 
2.43.0


From 95f5a04a7863061978034726bb56fd6b4330cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 48/90] fix: histogram matching copes with uniform frames and
 locations of zero or opposite sign

---
 internal/fits/pixelops.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index c325dc3..f70d41e 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -586,20 +586,24 @@ func (f* Image) SCNR(factor float32) {
 // Adjust image data to match the histogram peak of refStats.
 // Assumes f.Stats are current; and updates them afterwards.
 func (f *Image) MatchLocation(refLocation float32) {
-	multiplier:=refLocation / f.Stats.Location()
+	multiplier, offset:=refLocation / f.Stats.Location(), float32(0)
+	if !(multiplier>0 && multiplier<=math.MaxFloat32) { // no sensible multiplier, shift instead
+		multiplier, offset=1, refLocation - f.Stats.Location()
+	}
 	data:=f.Data
 	for i, d:=range data {
-		data[i]=d*multiplier
+		data[i]=d*multiplier + offset
 	}
 
 	// optimization, so we don't have to recompute f.Stats=CalcExtendedStats(f.Data, f.Naxisn[0])
-	f.Stats.UpdateCachedWith(multiplier, 0)
+	f.Stats.UpdateCachedWith(multiplier, offset)
 }
 
 // Adjust image data to match the histogram shape of refStats.
 // Assumes f.Stats are current; and updates them afterwards.
 func (f *Image) MatchHistogram(refStats *stats.Stats) {
-	multiplier:=refStats.Scale()    / f.Stats.Scale()
+	multiplier:=float32(1)
+	if f.Stats.Scale()!=0 { multiplier=refStats.Scale() / f.Stats.Scale() } // can only shift images of uniform intensity
 	offset    :=refStats.Location() - f.Stats.Location()*multiplier
 	data:=f.Data
 	for i, d:=range data {
@@ -649,7 +653,8 @@ func (f* Image) ScaleRGB(r, g, b float32) {
 func (f* Image) ShiftBlackToMove(before, after float32) {
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
-    // Then solving for black yields the following
+    // Then solving for black yields the following. No black point moves to or from pure white
+    if before==1 || after==1 { return }
     black:=(after-before)/(after-1)
     scale:=1/(1-black)
 	data:=f.Data
@@ -663,7 +668,8 @@ func (f* Image) ShiftBlackToMove(before, after float32) {
 func (f* Image) ShiftBlackToMoveChannel(chanID int, before, after float32) {
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
-    // Then solving for black yields the following
+    // Then solving for black yields the following. No black point moves to or from pure white
+    if before==1 || after==1 { return }
     black:=(after-before)/(after-1)
     scale:=1/(1-black)
     l:=len(f.Data)/3
-- 
2.43.0


From b04a4621e73f8d4dab0979d332e8b4c96f904ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 49/90] fix: the IKSS estimator terminates when most pixels
 have the same value

---
 internal/stats/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 5750a46..6794b23 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -510,6 +510,9 @@ func bwmv(xs []float32, median float32, tmp []float32) float32 {
 	}
 	mad := qsort.QSelectMedianFloat32(mads)
 	mads = nil
+	if mad == 0 { // at least half of the values are equal to the median
+		return 0
+	}
 
 	ys := tmp[:len(xs)]
 	for i, x := range xs {
-- 
2.43.0


From 5fc528ef983de2ab4bf457fa900d7f1a98be2bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 50/90] fix: gamma correction of bright values does not start
 below zero

---
 internal/fits/pixelops.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index f70d41e..8965bca 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -192,12 +192,14 @@ func pfPartialGamma(data []float32, params interface{}) {
 
 // Apply gamma correction to image in given range. Image must be normalized to [0,1] before. Operates in-place. 
 func (f* Image) ApplyPartialGamma(from, to, g float32) {
+	if from<0 { from=0 } // data is in [0,1]
 	f.ApplyPixelFunction(pfPartialGamma, pfPartialGammaArgs{from, to, g})
 	f.Stats.Clear()
 }
 
 // Apply gamma correction to given channel of the image. Image must be normalized to [0,1] before. Operates in-place. 
 func (f* Image) ApplyPartialGammaToChannel(chanID int, from, to, g float32) {
+	if from<0 { from=0 } // data is in [0,1]
 	f.ApplyPixelFunction1Chan(chanID, pfPartialGamma, pfPartialGammaArgs{from, to, g})
 	f.Stats.Clear()
 }
-- 
2.43.0


From 1474015a09b0a4959fa65ff9887fd3473c248d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 51/90] fix: midtones correction leaves images without a valid
 midtones curve alone instead of producing NaN or inverted tones

---
 internal/fits/pixelops.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 8965bca..e7bcae1 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -230,14 +230,25 @@ func pfMidtones(data []float32, params interface{}) {
 
 }
 
+// Returns true if there is a midtones curve for the given mid and black value. Mid must be between zero and one, and black below one
+func hasMidtones(mid, black float32) bool {
+	return mid>0 && mid<1 && black<1
+}
+
 // Apply midtones correction to given image. Data must be normalized to [0,1]. Operates in-place. 
+// Does nothing if there is no midtones curve for the given parameters
 func (f* Image) ApplyMidtones(mid, black float32) {
+	if !hasMidtones(mid, black) { return }
+	if black<0 { black=0 } // data is in [0,1], and the curve has a pole below zero
 	f.ApplyPixelFunction(pfMidtones, pfMidtonesArgs{mid, black})
 	f.Stats.Clear()
 }
 
 // Apply midtones correction to given channel of given image. Data must be normalized to [0,1]. Operates in-place. 
+// Does nothing if there is no midtones curve for the given parameters
 func (f* Image) ApplyMidtonesToChannel(chanID int, mid, black float32) {
+	if !hasMidtones(mid, black) { return }
+	if black<0 { black=0 } // data is in [0,1], and the curve has a pole below zero
 	f.ApplyPixelFunction1Chan(chanID, pfMidtones, pfMidtonesArgs{mid, black})
 	f.Stats.Clear()
 }
-- 
2.43.0


From e73645241d10491b7a5e230770575a99398d46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 52/90] fix: midtones correction with small mid values keeps
 white white

---
 internal/fits/pixelops.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index e7bcae1..10741b5 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -214,18 +214,19 @@ type pfMidtonesArgs struct {
 // Pixel function to apply midtones correction to given image slice. Data must be normalized to [0,1]. 
 // 2nd parameter must be a pfMidtonesArgs. Operates in-place. 
 func pfMidtones(data []float32, params interface{}) {
-	mid, black:=params.(pfMidtonesArgs).Mid, params.(pfMidtonesArgs).Black
+	// double precision, as clipLow gets close to clipHigh for small mid values
+	mid, black:=float64(params.(pfMidtonesArgs).Mid), float64(params.(pfMidtonesArgs).Black)
 	clipLow   :=black*(mid-1.0) / ((2.0*mid -1.0)*black - mid)
-	clipHigh  :=float32(1.0)
+	clipHigh  :=float64(1.0)
 	scaler    :=1.0/(clipHigh-clipLow)
 	for i, d:=range data {
-		value:=d*(mid-1.0) / ((2.0*mid -1.0)*d - mid)
+		value:=float64(d)*(mid-1.0) / ((2.0*mid -1.0)*float64(d) - mid)
 		if value<clipLow { 
 			value=clipLow 
 	    } else if value>clipHigh {
 	    	value=1
 	    }
-		data[i]=(value-clipLow)*scaler
+		data[i]=float32((value-clipLow)*scaler)
 	}
 
 }
-- 
2.43.0


From 7c3c0d0dc115927405df5cdf652409ae6cd68737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 53/90] fix: the IKSS estimator terminates on data with extreme
 outliers

---
 internal/stats/stats.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 6794b23..6399e76 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -522,18 +522,17 @@ func bwmv(xs []float32, median float32, tmp []float32) float32 {
 	numSum, denomSum := float32(0), float32(0)
 	for i, x := range xs {
 		y := ys[i]
-		a := float32(0)
-		if y > -1 && y < 1 {
-			a = float32(1)
+		if y <= -1 || y >= 1 {
+			continue // outliers have no weight, even if their powers overflow
 		}
 
 		xMinusM := x - median
 		oneMinusYSquared := 1 - y*y
 		oneMinusYSquaredSquared := oneMinusYSquared * oneMinusYSquared
-		numSum += a * xMinusM * xMinusM * oneMinusYSquaredSquared * oneMinusYSquaredSquared
+		numSum += xMinusM * xMinusM * oneMinusYSquaredSquared * oneMinusYSquaredSquared
 
 		oneMinus5YSquared := 1 - 5*y*y
-		denomSum += a * oneMinusYSquared * oneMinus5YSquared
+		denomSum += oneMinusYSquared * oneMinus5YSquared
 	}
 	return float32(len(xs)) * numSum / (denomSum * denomSum)
 }
-- 
2.43.0


From a1aac84f98cf35104fea440a3fc62ad07ba5bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 54/90] fix: moving the black point keeps white exactly white

---
 internal/fits/pixelops.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 10741b5..063d931 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -670,10 +670,10 @@ func (f* Image) ShiftBlackToMove(before, after float32) {
     // Then solving for black yields the following. No black point moves to or from pure white
     if before==1 || after==1 { return }
     black:=(after-before)/(after-1)
-    scale:=1/(1-black)
+    scale:=1-black // divide by this, so white stays exactly white
 	data:=f.Data
 	for i, d:=range data {
-		data[i]=float32(math.Max(0, float64((d-black)*scale)))
+		data[i]=float32(math.Max(0, float64((d-black)/scale)))
 	}
 	f.Stats.Clear()
 }
@@ -685,11 +685,11 @@ func (f* Image) ShiftBlackToMoveChannel(chanID int, before, after float32) {
     // Then solving for black yields the following. No black point moves to or from pure white
     if before==1 || after==1 { return }
     black:=(after-before)/(after-1)
-    scale:=1/(1-black)
+    scale:=1-black // divide by this, so white stays exactly white
     l:=len(f.Data)/3
 	data:=f.Data[chanID*l:(chanID+1)*l]
 	for i, d:=range data {
-		data[i]=float32(math.Max(0, float64((d-black)*scale)))
+		data[i]=float32(math.Max(0, float64((d-black)/scale)))
 	}
 	f.Stats.Clear()
 }
-- 
2.43.0


From b89529c4384bf1d8b20a4a0e9c01716100ed7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 55/90] fix: range normalization stays precise for a small
 range far from zero

---
 internal/fits/pixelops.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 063d931..f1b2619 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -139,11 +139,25 @@ func (f* Image) ApplyScaleOffsetToChannel(chanID int, scale, offset float32) {
 	f.Stats.Clear();
 }
 
+type pfNormalizeArgs struct {
+	Min   float32
+	Max   float32
+}
+
+// Pixel function to normalize the range [min, max] to [0, 1]. Subtracts first, to be precise for a small range far from zero. 
+// 2nd parameter must be a pfNormalizeArgs. Operates in-place. 
+func pfNormalize(data []float32, params interface{}) {
+	min, max:=params.(pfNormalizeArgs).Min, params.(pfNormalizeArgs).Max
+	width   :=max-min
+	for i, d:=range data {
+		data[i]=(d-min)/width
+	}
+}
+
 // Normalize image to [0..1] based on basic stats.  Operates in-place. 
 func (f* Image) Normalize() {
-	scale:=1.0/(f.Stats.Max()-f.Stats.Min())
-	offset:=-f.Stats.Min()*scale
-	f.ApplyScaleOffset(scale, offset)
+	f.ApplyPixelFunction(pfNormalize, pfNormalizeArgs{f.Stats.Min(), f.Stats.Max()})
+	f.Stats.Clear()
 }
 
 
-- 
2.43.0


From 95d799a6231046bf4c11b2e63fcb8797a6a15b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 56/90] fix: gaussian kernels of very small sigma do not crash

---
 internal/ops/stretch/usm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 91ad6b0..b71730d 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -47,7 +47,9 @@ func GaussianKernel1D(sigma float32) (kernel []float32) {
 	for {
 		val := GaussianDefiniteIntegral(mu, sigma, float32(-0.5)-float32(radius))
 		if val < acceptOut {
-			radius--
+			if radius > 0 {
+				radius-- // for very small sigma, the central pixel is all there is
+			}
 			break
 		}
 		radius++
-- 
2.43.0


From aec0f0baf28c7c105daf8c53fe07b8d33cf228f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 57/90] fix: blurring and sharpening images smaller than the
 kernel does not crash

---
 internal/ops/stretch/usm.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index b71730d..1d6291a 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -21,13 +21,15 @@ import (
 
 const sqrt2 float32 = float32(math.Sqrt2)
 
-// Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range
+// Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range.
+// Reflects as often as needed, as the kernel may be larger than the image
 func reflect(size, x int) int {
-	if x < 0 {
-		return -x - 1
-	}
-	if x >= size {
-		return 2*size - x - 1
+	for x < 0 || x >= size {
+		if x < 0 {
+			x = -x - 1
+		} else {
+			x = 2*size - x - 1
+		}
 	}
 	return x
 }
-- 
2.43.0


From d9b0e8787c8fa4a103e7e9d859b20fec32584492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 58/90] fix: blurring and sharpening treat color planes
 separately

---
 internal/ops/stretch/stretch.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index 195229c..da9eb82 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -335,6 +335,17 @@ func (op *OpScaleBlack) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 }
 
 
+// Splits image data into its planes, so that color planes do not blur into each other
+func planes(f *fits.Image) (planes [][]float32) {
+	size:=len(f.Data)
+	if len(f.Naxisn)>2 { size=int(f.Naxisn[0])*int(f.Naxisn[1]) }
+	for start:=0; start<len(f.Data); start+=size {
+		planes=append(planes, f.Data[start:start+size])
+	}
+	return planes
+}
+
+
 // An operator to apply gaussian blurring to an image
 type OpGaussianBlur struct {
 	ops.OpUnaryBase
@@ -371,7 +382,9 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	for _,plane:=range planes(f) {
+		GaussianBlur(plane, int(f.Naxisn[0]), op.Sigma)
+	}
 	f.Stats.SetData(f.Data)
 	return f, nil
 }
@@ -420,7 +433,10 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	min, max:=f.Stats.Min(), f.Stats.Max()
+	for _,plane:=range planes(f) {
+		copy(plane, UnsharpMask(plane, int(f.Naxisn[0]), op.Sigma, op.Gain, min, max, absThresh))
+	}
 	f.Stats.SetData(f.Data)
 	return f, nil
 }
-- 
2.43.0


From cd01cd33acb99660b1b9cb0008ecf09ddbbcc37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 59/90] fix: debanding copes with rows and columns without
 positive background, and ignores windows below one in both directions

---
 internal/ops/pre/banding.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index c2a3eae..bdd71fa 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -88,9 +88,14 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 				numSamples++
 			}
 		}
+		if numSamples==0 { // only bright objects in this row
+			rowPercentiles[row]=noBackground
+			continue
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		rowPercentiles[row]=qsort.QSelectFloat32(rowBuffer[:numSamples],int(k))
 	}
+	hasBackground:=fillNoBackground(rowPercentiles)
 
 	// correct each row
 	lowest, highest:=float32(1), float32(0)
@@ -116,6 +121,7 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 
 		// calculate local correction factor
 		factor:=medianOfRowPercentiles / rowPercentiles[row]
+		if !hasBackground[row] || !(factor>0 && factor<=math.MaxFloat32) { factor=1 } // no sensible correction
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
@@ -131,6 +137,26 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	return f, nil
 }
 
+// Marker for the percentile of rows and columns which have no background pixels
+const noBackground float32=-math.MaxFloat32
+
+// Replaces percentiles of rows or columns without background pixels with those of a neighbor. Returns which ones have background
+func fillNoBackground(percentiles []float32) (hasBackground []bool) {
+	hasBackground=make([]bool, len(percentiles))
+	last:=noBackground
+	for i,p:=range percentiles {
+		hasBackground[i]=p!=noBackground
+		if hasBackground[i] { last=p }
+		percentiles[i]=last
+	}
+	if last==noBackground { last=0 }
+	for i:=len(percentiles)-1; i>=0; i-- {
+		if percentiles[i]!=noBackground { last=percentiles[i] }
+		percentiles[i]=last
+	}
+	return hasBackground
+}
+
 func fixWindowEdge(window []float32, missing int32) {
   // calculate medians of the left and right halves of the window
   left:=make([]float32, len(window)/2)
@@ -195,7 +221,7 @@ func (op *OpDebandVert) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Percentile<=0 || op.Percentile>=100 { return f, nil }
+	if op.Percentile<=0 || op.Percentile>=100 || op.Window<=0 { return f, nil }
 
 	// obtain dimensions
 	numCols, numRows   :=f.Naxisn[0], f.Naxisn[1]
@@ -224,9 +250,14 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 				numSamples++
 			}
 		}
+		if numSamples==0 { // only bright objects in this column
+			colPercentiles[col]=noBackground
+			continue
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		colPercentiles[col]=qsort.QSelectFloat32(colBuffer[:numSamples],int(k))
 	}
+	hasBackground:=fillNoBackground(colPercentiles)
 
 	// calculate median of percentiles
 	copy(colPercentilesClone, colPercentiles)
@@ -255,6 +286,7 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 
 		// calculate local correction factor
 		factor:=medianOfColPercentiles / colPercentiles[col]
+		if !hasBackground[col] || !(factor>0 && factor<=math.MaxFloat32) { factor=1 } // no sensible correction
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
-- 
2.43.0


From f80d3b0457b13479c28046801c7fbbec42f0a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 60/90] fix: hues of saturated colors are kept when converting
 to HSLuv

---
 internal/fits/pixelops.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index f1b2619..a1ba13b 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -410,7 +410,7 @@ func pf3ChanRGBToHSLuv(rs,gs,bs []float32, params interface{}) {
 		r, g, b:=rs[i], gs[i], bs[i]
 
 		col:=colorful.LinearRgb(float64(r),float64(g),float64(b))
-		h,s,l:=col.HSLuv()
+		h,s,l:=colorToHSLuv(col)
 
 		rs[i], gs[i], bs[i]=float32(h), float32(s), float32(l) 
 	}
@@ -441,6 +441,17 @@ func pf3ChanHSLuvToRGB(rs,gs,bs []float32, params interface{}) {
 // default white, unfortunately defined as private in package colorful
 var hSLuvD65 = [3]float64{0.95045592705167, 1.0, 1.089057750759878}
 
+// convert color to HSLuv. Unlike the library function, which returns hue zero for saturated colors
+// with u close to zero or close to v, this only does so for grays
+func colorToHSLuv(col colorful.Color) (h, s, l float64) {
+	l, u, v:=col.LuvWhiteRef(hSLuvD65)
+	c:=math.Hypot(u, v)
+	if c>1e-9 {
+		h=math.Mod(math.Atan2(v, u)*180/math.Pi + 360, 360)
+	}
+	return colorful.LuvLChToHSLuv(l, c, h)
+}
+
 // convert HSLuv to linear RGB; faster; with color-preserving clamping
 func HSLuvToLinearRGB(h, s, l float32) (r, g, b float32) {
 	// HSLuv -> LuvLCh -> CIELUV -> CIEXYZ -> Linear RGB -> sRGB
@@ -593,7 +604,7 @@ func pf3ChanSCNR(hs,ss,ls []float32, params interface{}) {
 
 		// reassemble with luminance protection
 		col     =colorful.LinearRgb(float64(r),float64(weightedG),float64(b))
-		hnew,snew,_:=col.HSLuv()
+		hnew,snew,_:=colorToHSLuv(col)
 		hs[i], ss[i]=float32(hnew), float32(snew)        
 	}
 }
-- 
2.43.0


From 6c3767fea95dca028825ac7a2f79952571074e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 61/90] fix: background neutralization blends between its low
 and high limits

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index a1ba13b..478d97d 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -509,7 +509,7 @@ type pf3ChanNeutralizeBackgroundArgs struct {
 // RGB pixel function to adjust CIE HCL chroma by multiplying with 0 for values below low, with 1 above high, and interpolating linearly in between. 
 // Data must be HCL. 2nd parameter must be a pf3ChanNeutralizeBackgroundArgs. Operates in-place. 
 func pf3ChanNeutralizeBackground(hs,cs,ls []float32, params interface{}) {
-	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).Low
+	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).High
 	scaler:=float32(0)
 	if high>low { scaler=1.0/(high-low) }
 	for i, l:=range ls {
-- 
2.43.0


From e42b1b4a26b9a59b401c73ca7f9fe81f0438ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 62/90] fix: rotated hues stay within 0 to 360 degrees

---
 internal/fits/pixelops.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 478d97d..26684d5 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -576,6 +576,9 @@ func pf3ChanRotateColors(hs,ss,ls []float32, params interface{}) {
 		if ( from<=to  && (h>from && h<to)) ||
 		   ((from> to) && (h>from || h<to)) {  // if hue in given range (e.g. greens 100..190)
 			h+=offset                          // rotate by given amount (e.g yellow with -30)
+			if h<0 || h>=360 {                 // keep hue a valid angle
+				h=float32(math.Mod(math.Mod(float64(h), 360)+360, 360))
+			}
 			hs[i]=h
 		}
 	}
-- 
2.43.0


From 07c43ee6d7218194abd986f5b123eb03473700e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 63/90] fix: scaling and offsetting a channel the image does
 not have is an error

---
 internal/ops/hsl/hsl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 79a78da..bd03a91 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -113,6 +113,9 @@ func (op *OpHSLScaleOffsetChannel) Apply(f *fits.Image, c *ops.Context) (fOut *f
 	if op.Scale == 1 && op.Offset == 0 {
 		return f, nil
 	}
+	if numChannels := len(f.Data) / int(f.Naxisn[0]*f.Naxisn[1]); op.ChannelID < 0 || op.ChannelID >= numChannels {
+		return nil, fmt.Errorf("%d: cannot scale and offset channel %d, image has %d", f.ID, op.ChannelID, numChannels)
+	}
 	fmt.Fprintf(c.Log, "%d: Applying pixel math x = x * %.3f + %.3f%% to channel %d\n", f.ID, op.Scale, op.Offset*100, op.ChannelID)
 	f.ApplyScaleOffsetToChannel(op.ChannelID, op.Scale, op.Offset)
 	return f, nil
-- 
2.43.0


From 3fb5629b3d0a4007d51f03cc3661b0fe00963f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 64/90] fix: combining color channels of different size, or
 color images, is an error

---
 internal/fits/rgb.go    | 4 +---
 internal/ops/hsl/hsl.go | 3 +++
 internal/ops/rgb/rgb.go | 8 ++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 2a965a9..5d644d5 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -41,9 +41,7 @@ func (rgb RGB) String() string {
 // Combine single color images into one multi-channel image.
 // All images must have the same dimensions, or undefined results occur. 
 func NewRGBFromChannels(chans []*Image, alignStars []star.Star, alignHFR float32, logWriter io.Writer) *Image {
-	naxisn:=make([]int32, len(chans[0].Naxisn)+1)
-	copy(naxisn, chans[0].Naxisn)
-	naxisn[len(chans[0].Naxisn)]=int32(len(chans))
+	naxisn:=[]int32{chans[0].Naxisn[0], chans[0].Naxisn[1], int32(len(chans))}
 
 	rgb:=NewImageFromNaxisn(naxisn, nil)
 	rgb.Exposure=chans[0].Exposure+chans[1].Exposure+chans[2].Exposure
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index bd03a91..c3aaeec 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -60,6 +60,9 @@ func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if c.LumFrame == nil {
 		return f, nil
 	}
+	if c.LumFrame.Naxisn[0] != f.Naxisn[0] || c.LumFrame.Naxisn[1] != f.Naxisn[1] || c.LumFrame.Pixels != c.LumFrame.Naxisn[0]*c.LumFrame.Naxisn[1] {
+		return nil, fmt.Errorf("%d: cannot apply luminance image with dimensions %v to image with dimensions %v", f.ID, c.LumFrame.Naxisn, f.Naxisn)
+	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
 	c.LumFrame.MonoToHSLuvLum()
 
diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index f530d65..1a2cd39 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -71,6 +71,14 @@ func (op *OpRGBCombine) Apply(fs []*fits.Image, c *ops.Context) (fOut *fits.Imag
 	if len(fs) < 3 || len(fs) > 4 {
 		return nil, fmt.Errorf("invalid number of channels for color combination: %d", len(fs))
 	}
+	for _, f := range fs {
+		if len(f.Naxisn) < 2 || f.Pixels != f.Naxisn[0]*f.Naxisn[1] {
+			return nil, fmt.Errorf("%d: cannot combine colors, image with dimensions %v is not monochromatic", f.ID, f.Naxisn)
+		}
+		if f.Naxisn[0] != fs[0].Naxisn[0] || f.Naxisn[1] != fs[0].Naxisn[1] {
+			return nil, fmt.Errorf("%d: cannot combine colors, image has dimensions %v, but first image has %v", f.ID, f.Naxisn, fs[0].Naxisn)
+		}
+	}
 	if len(fs) == 4 {
 		c.LumFrame = fs[3]
 	}
-- 
2.43.0


From b1e417b23a17218cdab0fa7b0c0769470c76a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 65/90] fix: combining constant color channels does not yield
 NaN, and no channel exceeds 1

---
 internal/fits/rgb.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 5d644d5..6de2d86 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -48,21 +48,24 @@ func NewRGBFromChannels(chans []*Image, alignStars []star.Star, alignHFR float32
 	if alignStars!=nil { rgb.Stars, rgb.HFR=alignStars, alignHFR }
 
 	pixelsOrig:=chans[0].Pixels
-	min, mult:=getCommonNormalizationFactors(chans)
-	fmt.Fprintf(logWriter, "common normalization factors min=%f mult=%f\n", min, mult)
+	min, max:=getCommonNormalizationRange(chans)
+	fmt.Fprintf(logWriter, "common normalization range min=%f max=%f\n", min, max)
+	if max<=min { // all pixels in all channels are the same
+		return rgb
+	}
 	for id, ch:=range chans {
 		dest:=rgb.Data[int32(id)*pixelsOrig : (int32(id)+1)*pixelsOrig]
 		for j,val:=range ch.Data {
-			dest[j]=(val-min)*mult
+			dest[j]=(val-min)/(max-min)
 		}
 	}
 	return rgb
 } 
 
-// calculate common normalization factors to [0..1] across all channels
-func getCommonNormalizationFactors(chans []*Image) (min, mult float32) {
+// calculate common range to normalize to [0..1] across all channels
+func getCommonNormalizationRange(chans []*Image) (min, max float32) {
 	min =chans[0].Stats.Min()
-	max:=chans[0].Stats.Max()
+	max =chans[0].Stats.Max()
 	for _, ch :=range chans[1:] {
 		if ch.Stats.Min()<min {
 			min=ch.Stats.Min()
@@ -71,8 +74,7 @@ func getCommonNormalizationFactors(chans []*Image) (min, mult float32) {
 			max=ch.Stats.Max()
 		}
 	}
-	mult=1 / (max - min)
-	return min, mult
+	return min, max
 }
 
 
-- 
2.43.0


From c0b0b4c3291682ff7c82788d93985038b6454a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 66/90] fix: luminance images outside the range 0 to 1 are
 normalized before use

---
 internal/ops/hsl/hsl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index c3aaeec..d4b1635 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -64,6 +64,9 @@ func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 		return nil, fmt.Errorf("%d: cannot apply luminance image with dimensions %v to image with dimensions %v", f.ID, c.LumFrame.Naxisn, f.Naxisn)
 	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
+	if c.LumFrame.Stats.Min() < 0 || c.LumFrame.Stats.Max() > 1 {
+		c.LumFrame.Normalize() // conversion requires range [0,1]
+	}
 	c.LumFrame.MonoToHSLuvLum()
 
 	fmt.Fprintf(c.Log, "Applying luminance image to luminance channel...\n")
-- 
2.43.0


From 0330d321eb51b563941a560a6fd8bd8b9d0f5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 67/90] fix: colors that cannot be balanced are an error
 instead of NaN or a crash

---
 internal/fits/rgb.go | 47 ++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 6de2d86..5bca675 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -102,7 +102,9 @@ func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim flo
 	scaled:=RGB { loc.R+statsR.Scale()*3, loc.G+statsG.Scale()*3, loc.B+statsB.Scale()*3 }
 	fmt.Fprintf(logWriter, "Location is %s and loc+3 sigma is %s\n", loc, scaled)
 
-	f.setBlackWhitePoints(loc, scaled, shadows, highlights, logWriter)
+	if err:=f.setBlackWhitePoints(loc, scaled, shadows, highlights, logWriter); err!=nil {
+		return err
+	}
 
 	// 2nd pass
 	//
@@ -110,20 +112,28 @@ func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim flo
 	statsG=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 1, 3)
 	statsB=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 
-	darkest:= f.findDarkestBlock(block, border)
+	darkest, err:=f.findDarkestBlock(block, border)
+	if err!=nil {
+		return err
+	}
 	clip   := float32(0.9)
-	stars  := f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
+	stars, err:=f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
+	if err!=nil {
+		return err
+	}
 	fmt.Fprintf(logWriter, "Darkest block is %s and mean star color is %s\n", darkest, stars)
 
-	f.setBlackWhitePoints(darkest, stars, shadows, highlights, logWriter)
-
-	return nil
+	return f.setBlackWhitePoints(darkest, stars, shadows, highlights, logWriter)
 }
 
 
 // Sets black point and white point once, maintaining brightness of the current shadows and current highlights,
 // but adjusting the color tint towards the target
-func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, targetHighlights RGB, logWriter io.Writer) {
+func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, targetHighlights RGB, logWriter io.Writer) error {
+	if curHighlights.R==curShadows.R || curHighlights.G==curShadows.G || curHighlights.B==curShadows.B {
+		return fmt.Errorf("cannot balance colors with shadows %s and highlights %s", curShadows, curHighlights)
+	}
+
 	// Pick average shadow color as new shadow (avoid degenerated colors)
 	newShadow:=(curShadows.R+curShadows.G+curShadows.B)/3
 	newShadows:=RGB { targetShadows.R*newShadow, targetShadows.G*newShadow, targetShadows.B*newShadow }
@@ -147,11 +157,15 @@ func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, ta
 	// Apply the correction factors
 	fmt.Fprintf(logWriter, "r=%.3f*r %+.1f%%, g=%.1f*g %+.3f%%, b=%.3f*b %+.1f%%\n", alphaR, betaR*100, alphaG, betaG*100, alphaB, betaB*100)
 	f.ScaleOffsetClampRGB(alphaR, betaR, alphaG, betaG, alphaB, betaB)
+	return nil
 }
 
 
 // finds mean color of the darkest block in a given color image
-func (f *Image) findDarkestBlock(blockSize int32, border float32) RGB {
+func (f *Image) findDarkestBlock(blockSize int32, border float32) (RGB, error) {
+  if blockSize<=0 || border<0 {
+    return RGB{}, fmt.Errorf("cannot balance colors with block size %d and border %g", blockSize, border)
+  }
   width:=f.Naxisn[0]
   height:=f.Naxisn[1]
   channelSize:=width*height
@@ -216,17 +230,21 @@ func (f *Image) findDarkestBlock(blockSize int32, border float32) RGB {
      }
   }
 
-  return RGB{rMin, gMin, bMin}
+  if lMin==math.MaxFloat32 {
+    return RGB{}, fmt.Errorf("cannot balance colors, no complete block of size %d within border %g", blockSize, border)
+  }
+  return RGB{rMin, gMin, bMin}, nil
 }
 
 
 // Returns mean color for the stars in the given RGB image
-func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) RGB {
-	if len(f.Stars)==0 { return RGB{0, 0, 0} }
+func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) (RGB, error) {
 
 	sStart:=             int(float32(len(f.Stars))*skipBright)
 	sEnd  :=len(f.Stars)-int(float32(len(f.Stars))*skipDim)
-	if sStart>=sEnd { return RGB{0, 0, 0} }
+	if sStart<0 || sStart>=sEnd || sEnd>len(f.Stars) {
+		return RGB{}, fmt.Errorf("cannot balance colors using %d stars without the brightest %g and dimmest %g", len(f.Stars), skipBright, skipDim)
+	}
 
 	width:=f.Naxisn[0]
 	height:=f.Naxisn[1]
@@ -277,6 +295,9 @@ func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) RGB {
 	}
 
 	// normalize and return totals
+	if totalPixels==0 {
+		return RGB{}, fmt.Errorf("cannot balance colors, all stars are clipped")
+	}
 	norm:=1.0/float32(totalPixels)
-	return RGB{totalR*norm, totalG*norm, totalB*norm}
+	return RGB{totalR*norm, totalG*norm, totalB*norm}, nil
 }
-- 
2.43.0


From 4a53674541ef1b379bc7d36c043292a49aaa1503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 68/90] fix: bad pixel removal on color filter arrays is kept
 when serializing a job

---
 internal/ops/pre/preprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index e81ff03..ab4b0a5 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -147,7 +147,7 @@ type OpBadPixel struct {
 	ops.OpUnaryBase
 	SigmaLow  float32    `json:"sigmaLow"`
 	SigmaHigh float32    `json:"sigmaHigh"`
-	Debayer   *OpDebayer `json:"-"`
+	Debayer   *OpDebayer `json:"debayer"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpBadPixelDefaults() }) } // register the operator for JSON decoding
-- 
2.43.0


From 2f3afbd30aebcd2c735046c9a74650b503468655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 69/90] fix: a single step given as a job is executed instead
 of being ignored

---
 internal/ops/operator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index e426580..84a034a 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -480,12 +480,16 @@ func NewOpSequence(steps ...Operator) *OpSequence {
 // Uses temporary op.StepsRaw inspired by https://alexkappa.medium.com/json-polymorphism-in-go-4cade1e58ed1
 func (op *OpSequence) UnmarshalJSON(b []byte) error {
 	type alias OpSequence
-	var tmp alias
+	tmp := alias(*NewOpSequenceDefault())
 	err := json.Unmarshal(b, &tmp)
 	if err != nil {
 		return err
 	}
-	op.Type = tmp.Type
+	if def := NewOpSequenceDefault(); tmp.Type != def.Type { // a single step stands for the sequence of this step
+		tmp = alias(*def)
+		tmp.StepsRaw = []json.RawMessage{b}
+	}
+	op.Type, op.Steps = tmp.Type, nil
 
 	for _, raw := range tmp.StepsRaw {
 		var step OpBase
-- 
2.43.0


From fb51d7d499229925b413dd90643fbbda42f5e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 70/90] fix: balancing colors of an image which is not a color
 image is an error instead of a crash

---
 internal/ops/rgb/rgb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index 1a2cd39..54d539b 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -135,6 +135,9 @@ func (op *OpRGBBalance) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if f.Stars == nil || len(f.Stars) == 0 {
 		return nil, errors.New("cannot balance colors with zero stars detected")
 	}
+	if len(f.Naxisn) != 3 || f.Naxisn[2] != 3 {
+		return nil, fmt.Errorf("%d: cannot balance colors, image with dimensions %v is not a color image", f.ID, f.Naxisn)
+	}
 
 	fmt.Fprintf(c.Log, "Balancing darkest %dx%d block outside %.1f%% border to color tint %s and stars skipping brightest %.1f%% and dimmest %.1f%% to %s\n",
 		op.Block, op.Block, 100*op.Border, op.Shadows, 100*op.SkipBright, 100*op.SkipDim, op.Highlights)
-- 
2.43.0


From 97bb067ef450825d3ee63d38046cd8046e93ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 71/90] fix: an invalid reference selection target is an error
 instead of a crash

---
 internal/ops/ref/refframe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index f66cf6d..7b05b19 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -89,6 +89,9 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 	if len(ins) == 0 {
 		return nil, errors.New(fmt.Sprintf("%s operator needs inputs", op.Type))
 	}
+	if op.Target < 0 || int(op.Target) >= len(srTargetStrings) {
+		return nil, errors.New(fmt.Sprintf("Invalid reference selection target %d", op.Target))
+	}
 
 	sel := &selection{}
 	outs = make([]ops.Promise, len(ins))
-- 
2.43.0


From 32de3b7ae965f9e35856302ae9e685f34eb3c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 72/90] fix: the job server parses all of a request as a job,
 and echoes its steps

---
 internal/rest/serve.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index 0228cd5..ea9e64e 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -97,9 +97,13 @@ func postJob(c *gin.Context) {
 		// raw,_:=c.GetRawData()
 		// fmt.Printf("Raw data: %s\n", string(raw))
 
-		// bind POST arguments to a sequence operator
+		// parse the entire request body as a sequence operator
 		var op ops.OpSequence
-		if err := c.ShouldBind(&op); err != nil {
+		body, err := c.GetRawData()
+		if err == nil {
+			err = json.Unmarshal(body, &op)
+		}
+		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 			return
 		}
@@ -112,7 +116,7 @@ func postJob(c *gin.Context) {
 		logWriter.WriteHeader(http.StatusOK)
 
 		// play back arguments for debugging
-		if err := printOp(logWriter, "Arguments:\n", "\n", op); err != nil {
+		if err := printOp(logWriter, "Arguments:\n", "\n", &op); err != nil {
 			fmt.Fprintf(logWriter, "Error printing arguments: %s\n", err.Error())
 			return
 		}
-- 
2.43.0


From a1969b0bd02ff1bf3d7819fed785a779794196ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 73/90] fix: frames processed concurrently do not corrupt the
 log returned by the job server

---
 internal/rest/serve.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index ea9e64e..fc2b78c 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"net/http"
 	"runtime/debug"
+	"sync"
 
 	"github.com/gin-gonic/gin"
 
@@ -92,6 +93,18 @@ func printOp(logWriter io.Writer, prefix, suffix string, op interface{}) error {
 	return nil
 }
 
+// A writer for concurrent use
+type syncWriter struct {
+	mutex sync.Mutex
+	w     io.Writer
+}
+
+func (s *syncWriter) Write(p []byte) (n int, err error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.w.Write(p)
+}
+
 func postJob(c *gin.Context) {
 	{
 		// raw,_:=c.GetRawData()
@@ -109,11 +122,11 @@ func postJob(c *gin.Context) {
 		}
 
 		// prepare headers
-		logWriter := c.Writer
-		header := logWriter.Header()
+		header := c.Writer.Header()
 		//header.Set("Transfer-Encoding", "chunked")
 		header.Set("Content-Type", "text/plain")
-		logWriter.WriteHeader(http.StatusOK)
+		c.Writer.WriteHeader(http.StatusOK)
+		logWriter := &syncWriter{w: c.Writer}
 
 		// play back arguments for debugging
 		if err := printOp(logWriter, "Arguments:\n", "\n", &op); err != nil {
@@ -135,7 +148,7 @@ func postJob(c *gin.Context) {
 			fmt.Fprintf(logWriter, "Error materializing promises: %s\n", err.Error())
 			return
 		}
-		logWriter.(http.Flusher).Flush()
+		c.Writer.(http.Flusher).Flush()
 	}
 	debug.FreeOSMemory()
 
-- 
2.43.0


From be1c67683097c7ae16b44068c3468f7b1c250607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 74/90] fix: a panic while processing a frame is an error
 instead of ending the job server

---
 internal/ops/operator.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 84a034a..4535902 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -63,6 +63,16 @@ func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMo
 // A promise for a FITS image. Returns a materialized image, or an error
 type Promise func() (f *fits.Image, err error)
 
+// Materializes the promise. A panic while doing so becomes an error, so a single job cannot end the entire program
+func (p Promise) materialize() (f *fits.Image, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			f, err = nil, fmt.Errorf("internal error: %v", r)
+		}
+	}()
+	return p()
+}
+
 // Materializes all promises with given concurrency limit
 func MaterializeAll(ins []Promise, maxThreads int, forget bool) (outs []*fits.Image, err error) {
 	if len(ins) == 0 {
@@ -77,7 +87,7 @@ func MaterializeAll(ins []Promise, maxThreads int, forget bool) (outs []*fits.Im
 		limiter <- true
 		go func(i int, theIn Promise) {
 			defer func() { <-limiter }()
-			f, err := theIn() // materialize the promise
+			f, err := theIn.materialize()
 			if err != nil {
 				if !forget {
 					outs[i] = nil
-- 
2.43.0


From a46c8098edb25bf9f4c10662b3c31ac1edb0c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 75/90] fix: location and scale of images with pixels without
 data are those of the other pixels

---
 internal/stats/stats.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 6399e76..9c2799a 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -229,24 +229,51 @@ func (s *Stats) StringEager() string {
 func (s *Stats) updateLocationScale() {
 	numSamples := 128 * 1024
 
+	data, min, max := withinBounds(s.data, -math.MaxFloat32, math.MaxFloat32), s.Min(), s.Max()
+	if len(data) == 0 && LSEstimator != LSEMeanStdDev {
+		s.location, s.scale = float32(math.NaN()), float32(math.NaN())
+		s.haveLocScale = true
+		return
+	}
+	if len(data) != len(s.data) && len(data) > 0 { // ignore pixels without data
+		min, _, max = calcMinMeanMax(data)
+	}
+
 	switch LSEstimator {
 	case LSEMeanStdDev:
 		s.location, s.scale = s.Mean(), s.StdDev()
 	case LSEMedianMAD:
 		samples := make([]float32, numSamples)
-		s.location = FastApproxMedian(s.data, samples)
-		s.scale = FastApproxMAD(s.data, s.location, samples)
+		s.location = FastApproxMedian(data, samples)
+		s.scale = FastApproxMAD(data, s.location, samples)
 		samples = nil
 	case LSEIKSS:
-		s.location, s.scale = IKSS(s.data, 1e-6, float32(math.Pow(2, -23)))
+		s.location, s.scale = IKSS(data, 1e-6, float32(math.Pow(2, -23)))
 	case LSESCMedianQn:
-		s.location, s.scale = FastApproxSigmaClippedMedianAndQn(s.data, 2, 2, (s.Max()-s.Min())/(65535.0), numSamples)
+		s.location, s.scale = FastApproxSigmaClippedMedianAndQn(data, 2, 2, (max-min)/(65535.0), numSamples)
 	case LSEHistogram:
-		s.location, s.scale = HistogramScaleLoc(s.data, s.Min(), s.Max(), 4096)
+		s.location, s.scale = HistogramScaleLoc(data, min, max, 4096)
 	}
 	s.haveLocScale = true
 }
 
+// Returns the values within the given bounds. This is the data itself if all values are
+func withinBounds(data []float32, lowBound, highBound float32) (res []float32) {
+	for i, d := range data {
+		if d >= lowBound && d <= highBound {
+			continue
+		}
+		res = append(res, data[:i]...)
+		for _, d := range data[i+1:] {
+			if d >= lowBound && d <= highBound {
+				res = append(res, d)
+			}
+		}
+		return res
+	}
+	return data
+}
+
 func MeanStdDev(xs []float32) (mean, stdDev float32) {
 	// calculate base statistics for xs
 	xmean := float32(0)
-- 
2.43.0


From adc7bb64b91b2fed53888157c555bb467fdd4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 76/90] fix: location and scale estimation terminates if few
 pixels are close to the location

---
 internal/stats/stats.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 9c2799a..c8a86c9 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -362,6 +362,9 @@ func SigmaClippedMedianAndMAD(data []float32, sigmaLow, sigmaHigh float32) (medi
 	}
 }
 
+// Maximum number of values out of bounds drawn per sample, before sampling from the values within bounds only
+const maxMisses = 16
+
 // Calculates fast approximate median of the (presumably large) data by subsampling the given number of values and taking the median of that.
 // Uses provided samples array as scratchpad
 func FastApproxMedian(data []float32, samples []float32) float32 {
@@ -380,6 +383,7 @@ func FastApproxMedian(data []float32, samples []float32) float32 {
 func FastApproxBoundedMedian(data []float32, lowBound, highBound float32, samples []float32) float32 {
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
+	misses := 0
 	for i := range samples {
 		var d float32
 		for {
@@ -387,6 +391,12 @@ func FastApproxBoundedMedian(data []float32, lowBound, highBound float32, sample
 			if d >= lowBound && d <= highBound {
 				break
 			}
+			if misses++; misses == maxMisses*len(samples) { // few values within bounds
+				data = withinBounds(data, lowBound, highBound)
+				if max = uint32(len(data)); max == 0 {
+					return 0.5*lowBound + 0.5*highBound
+				}
+			}
 		}
 		samples[i] = d
 	}
@@ -466,6 +476,9 @@ func FastApproxBoundedMAD(data []float32, location float32, lowBound, highBound
 // Sampling approach appears to be mine
 func FastApproxQn(data []float32, samples []float32) float32 {
 	max := uint32(len(data))
+	if max < 2 {
+		return 0 // no pairs
+	}
 	rng := fastrand.RNG{}
 	for i := range samples {
 		index1 := 1 + rng.Uint32n(max-1)
@@ -480,10 +493,20 @@ func FastApproxQn(data []float32, samples []float32) float32 {
 // Calculates fast approximate Qn scale estimate of the (presumably large) data by subsampling the given number of pairs and taking the first quartile of that.
 func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []float32) float32 {
 	max := uint32(len(data))
+	if max < 2 {
+		return 0 // no pairs
+	}
 	rng := fastrand.RNG{}
+	misses := 0
 	for i := range samples {
 		var d1, d2 float32
 		for {
+			if misses++; misses == maxMisses*len(samples) { // few values within bounds
+				data = withinBounds(data, lowBound, highBound)
+				if max = uint32(len(data)); max < 2 {
+					return 0
+				}
+			}
 			index1 := 1 + rng.Uint32n(max-1)
 			d1 = data[index1]
 			if d1 < lowBound || d1 > highBound {
@@ -583,7 +606,7 @@ func IKSS(data []float32, epsilon float32, e float32) (location, scale float32)
 		if s < epsilon {
 			return m, 0
 		}
-		if s0-s < s*epsilon {
+		if !(s0-s >= s*epsilon) { // also if not a number
 			return m, 0.991 * s
 		}
 		s0 = s
-- 
2.43.0


From 9e1a23f0c4d264cfa17036461ac22f7b86d1b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 77/90] fix: the histogram location of images with extreme
 ranges is computed instead of crashing

---
 internal/stats/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index c8a86c9..153870d 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -704,6 +704,9 @@ func HistogramScaleLoc(data []float32, min, max float32, numBins uint32) (loc, s
 
 	bins := make([]uint32, numBins)
 	valueToBin := float32(numBins-1) / (max - min)
+	if valueToBin == 0 || valueToBin > math.MaxFloat32 { // range cannot be divided into bins
+		return 0.5*min + 0.5*max, 0.5*max - 0.5*min
+	}
 	for _, d := range data {
 		bin := uint32(((d - min) * valueToBin) + 0.5)
 		bins[bin]++
-- 
2.43.0


From 4b0c1e0a0d1b5fad994f94360ed8312a102bae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 78/90] fix: a file named like the command is not loaded as an
 additional input

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index 3bef22f..286016a 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -277,7 +277,7 @@ Flags:
 
 	// glob filename arguments into an opLoadMany operator
 	var err error
-	opLoadMany := ops.NewOpLoadMany(args)
+	opLoadMany := ops.NewOpLoadMany(args[1:]) // without the command
 
 	// parse preprocessing flags into preprocessing sequence operator
 	opDebayer := pre.NewOpDebayer(*debayer, *cfa)
-- 
2.43.0


From deaa32e05a2ea523d5d40a5690141ff0f19433b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 79/90] fix: running a JSON job uses the selected location and
 scale estimator

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index 286016a..28e102d 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -227,7 +227,7 @@ Flags:
 		flag.Usage()
 		return
 	}
-	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" || args[0] == "lrgb" {
+	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" || args[0] == "lrgb" || args[0] == "run" {
 		fmt.Fprintf(logWriter, "Using location and scale estimator %d\n", *lsEst)
 		stats.LSEstimator = stats.LSEstimatorMode(*lsEst)
 	}
-- 
2.43.0


From a4f7a734a12804ad44e5b88818f1dbf12fe57bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 80/90] fix: an unknown command is an error

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index 28e102d..619f650 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -416,7 +416,7 @@ Flags:
 	default:
 		fmt.Fprintf(logWriter, "Unknown command '%s'\n\n", args[0])
 		flag.Usage()
-		return
+		os.Exit(-1)
 	}
 
 	if err != nil {
-- 
2.43.0


From 73baf36ac5203dce7fa2100fd16948b7468cc723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 81/90] fix: failing to serve the port is an error

---
 internal/rest/serve.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index fc2b78c..9552518 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -59,7 +59,9 @@ func Serve(port, theStMemory int) {
 			v1.StaticFS("/files", http.Dir("."))
 		}
 	}
-	r.Run(fmt.Sprintf(":%d", port)) // listen and serve on 0.0.0.0:port
+	if err := r.Run(fmt.Sprintf(":%d", port)); err != nil { // listen and serve on 0.0.0.0:port
+		panic(fmt.Sprintf("error serving port %d: %s\n", port, err.Error()))
+	}
 }
 
 func CORSMiddleware() gin.HandlerFunc {
-- 
2.43.0


From 1dc97433cb2744ab123efd38ab5286c981082804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 82/90] fix: refuse to write TIFFs larger than the encoder
 supports

---
 internal/fits/tiff16.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index dcdfe42..711d7b1 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -50,6 +50,9 @@ func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) erro
 func (f *Image) WriteTIFF16(writer io.Writer, min, max, gamma float32) error {
 	// convert pixels into Golang Image
 	width, height := int(f.Naxisn[0]), int(f.Naxisn[1])
+	if width > math.MaxUint16 || height > math.MaxUint16 {
+		return fmt.Errorf("cannot write %dx%d pixels to TIFF, at most %d per axis are supported", width, height, math.MaxUint16)
+	}
 	size := width * height
 	img := image.NewRGBA64(image.Rectangle{image.Point{0, 0}, image.Point{width, height}})
 	scale := 1.0 / (max - min)
@@ -117,6 +120,9 @@ func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32)
 func (f *Image) WriteMonoTIFF16(writer io.Writer, min, max, gamma float32) error {
 	// convert pixels into Golang Image
 	width, height := int(f.Naxisn[0]), int(f.Naxisn[1])
+	if width > math.MaxUint16 || height > math.MaxUint16 {
+		return fmt.Errorf("cannot write %dx%d pixels to TIFF, at most %d per axis are supported", width, height, math.MaxUint16)
+	}
 	img := image.NewGray16(image.Rectangle{image.Point{0, 0}, image.Point{width, height}})
 	scale := 1 / (max - min)
 	gammaInv := float64(1.0 / gamma)
-- 
2.43.0


From b1395ffebfb003520ecdb53d7980c8219430a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 83/90] fix: web editor sends numbers chosen from lists as
 numbers, and the background grid size

---
 web/js/blocks.js  |  2 +-
 web/js/codegen.js | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 19b395c..11fb4ae 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -264,7 +264,7 @@ Blockly.defineBlocksWithJsonArray([
     "args0": [
       {
         "type": "field_dropdown",
-        "name": "grid",
+        "name": "gridSize",
         "options" : [
           [ "0", "0"],
           [ "32", "32"],
diff --git a/web/js/codegen.js b/web/js/codegen.js
index 0aa1b36..5ee3014 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -70,11 +70,11 @@ Json["nl_pre_debayer"]=function(block) {
 }
 
 Json["nl_pre_debandVert"]=function(block) {
-  return createJsonObject(block, "debandVert", ["percentile", "window"], null, null);
+  return createJsonObject(block, "debandVert", ["percentile"], ["window"], null);
 }
 
 Json["nl_pre_debandHoriz"]=function(block) {
-  return createJsonObject(block, "debandHoriz", ["percentile", "window"], null, null);
+  return createJsonObject(block, "debandHoriz", ["percentile"], ["window"], null);
 }
 
 Json["nl_pre_scaleOffset"]=function(block) {
@@ -82,11 +82,11 @@ Json["nl_pre_scaleOffset"]=function(block) {
 }
 
 Json["nl_pre_bin"]=function(block) {
-  return createJsonObject(block, "bin", ["binSize"], null, null);
+  return createJsonObject(block, "bin", null, ["binSize"], null);
 }
 
 Json["nl_pre_backExtract"]=function(block) {
-  return createJsonObject(block, "backExtract", ["gridSize", "hfrFactor", "sigma", "clip"], null, ["save"]);
+  return createJsonObject(block, "backExtract", ["hfrFactor", "sigma", "clip"], ["gridSize"], ["save"]);
 }
 
 Json["nl_pre_starDetect"]=function(block) {
@@ -162,7 +162,7 @@ Json["nl_hsl_hslApplyLum"]=function(block) {
 }
 
 Json["nl_hsl_hslScaleOffsetChannel"]=function(block) {
-  return createJsonObject(block, "hslScaleOffsetChannel", ["channelID", "scale", "offset"], null);
+  return createJsonObject(block, "hslScaleOffsetChannel", ["scale", "offset"], ["channelID"]);
 }
 
 Json["nl_hsl_hslNeutralizeBackground"]=function(block) {
-- 
2.43.0


From 62148615283f7174f5f4d36dd3ce0a868b5207a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 84/90] fix: web editor selects the named stacking modes

---
 web/js/blocks.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 11fb4ae..3dc6e86 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -503,8 +503,9 @@ Blockly.defineBlocksWithJsonArray([
           [ "mean (no sigmas)", "1"],
           [ "sigma-clipped mean", "2"],
           [ "winsorized mean", "3"],
-          [ "linear regression fit", "4"],
-          [ "automatic mode selection", "5"],
+          [ "MAD sigma-clipped mean", "4"],
+          [ "linear regression fit", "5"],
+          [ "automatic mode selection", "6"],
         ]
       }
     ],
-- 
2.43.0


From 300e589db64e2259f9db50a9be117f71b242b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 85/90] fix: web editor describes reference selection the way
 the server expects it

---
 web/js/blocks.js  | 21 ++++++++++++++-------
 web/js/codegen.js |  5 ++++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 3dc6e86..1ef7a84 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -387,21 +387,28 @@ Blockly.defineBlocksWithJsonArray([
   {
     "type": "nl_ref_selectReference",
     "tooltip": "Select reference frame for histogram normalization and alignment",
-    "message0": "Select reference frame by %1",
+    "message0": "Select reference frame for %1 by %2",
     "args0": [
+      {
+        "type": "field_dropdown",
+        "name": "target",
+        "options" : [
+          [ "alignment", "0"],
+          [ "histogram matching", "1"]
+        ]
+      },
       {
         "type": "field_dropdown",
         "name": "mode",
         "options" : [
-          [ "highest # stars / HFR (for lights)", "0"],
-          [ "median skyfog location (for flats)", "1"],
-          [ "given filename", "2"],
-          [ "given in-memory image", "3"],
-          [ "Lum if present, else best RGB", "4"]
+          [ "highest # stars / HFR (for lights)", "%starsHFR"],
+          [ "median skyfog location (for flats)", "%location"],
+          [ "given filename or image ID", ""],
+          [ "Lum if present, else best RGB", "%rgb"]
         ]
       }
     ],
-    "message1": "with optional filename %1",
+    "message1": "with optional filename or image ID %1",
     "args1": [
       {
         "type": "field_input",
diff --git a/web/js/codegen.js b/web/js/codegen.js
index 5ee3014..38e98ae 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -94,7 +94,10 @@ Json["nl_pre_starDetect"]=function(block) {
 }
 
 Json["nl_ref_selectReference"]=function(block) {
-  return createJsonObject(block, "selectRef", ["fileName",], ["mode"], ["starDetect"]);
+  var res=JSON.parse(createJsonObject(block, "selectRef", ["mode"], ["target"], ["starDetect"]));
+  if(res.mode=="") // given filename or image ID
+    res.mode=block.getFieldValue("fileName");
+  return JSON.stringify(res);
 }
 
 Json["nl_post_matchHistogram"]=function(block) {
-- 
2.43.0


From 968e35e32b7278d6364bd188d4aca9d1cd0f555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 86/90] fix: web editor posts jobs to the server it was loaded
 from

---
 web/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/index.html b/web/index.html
index 076d381..53dbe85 100644
--- a/web/index.html
+++ b/web/index.html
@@ -116,7 +116,7 @@
           body: code,
         };
 
-        fetch('http://localhost:8080/api/v1/job', options)
+        fetch('/api/v1/job', options)
           .then(processChunkedResponse)
           .then(onChunkedResponseComplete)
           .catch(onChunkedResponseError)
-- 
2.43.0


From de88f1ed17e192e4c14272d69b7673735e56d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 87/90] fix: web editor has a place to show the generated code

---
 web/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/index.html b/web/index.html
index 53dbe85..cd3e8be 100644
--- a/web/index.html
+++ b/web/index.html
@@ -62,7 +62,7 @@
     <table>
       <tr><td><h1>Nightlight</h1></td><td><button onclick="showCode()">Show code</button> <button onclick="run()">Run</button></td></tr>
       <tr><td id="blocklyArea" width="768px"></td><td width="*">
-        <table><tr><td height="50%"><img src="/api/v1/files/C2021A1_LRGB.jpg" id="image"></img><!--<h2>Generated JSON</h2><br></br><div id="generatedCode"></div>--></td></tr>
+        <table><tr><td height="50%"><img src="/api/v1/files/C2021A1_LRGB.jpg" id="image"></img><pre id="generatedCode"></pre></td></tr>
                <tr><td height="50%"><h2>Log messages</h2><br></br><pre id="logMessages"></pre></td></tr></table>
       </td></tr>
     </table>
-- 
2.43.0


From 03aec5b5355b08155424f1705827d546bf444f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 88/90] fix: serving in a chroot changes to the new root,
 whatever the directory is called

---
 internal/rest/sandbox_unix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rest/sandbox_unix.go b/internal/rest/sandbox_unix.go
index ac72f50..f9cc03e 100644
--- a/internal/rest/sandbox_unix.go
+++ b/internal/rest/sandbox_unix.go
@@ -34,8 +34,8 @@ func MakeSandbox(chroot string, setuid int) {
 		if err:=syscall.Chroot(chroot); err!=nil {
 			panic(fmt.Sprintf("error chroot(%s): %s\n", chroot, err.Error()))
 		}
-		if err:=os.Chdir(chroot); err!=nil {
-			panic(fmt.Sprintf("error chdir(%s): %s\n", chroot, err.Error()))
+		if err:=os.Chdir("/"); err!=nil { // the new root, to which the given path no longer applies
+			panic(fmt.Sprintf("error chdir(/): %s\n", err.Error()))
 		}
 	}
 	if setuid>=0 {
-- 
2.43.0


From 20039d335013f6500b7760a9af9a229495fc7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 89/90] fix: refuse to serve with a user id that does not exist

---
 internal/rest/sandbox_unix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/rest/sandbox_unix.go b/internal/rest/sandbox_unix.go
index f9cc03e..cf1189c 100644
--- a/internal/rest/sandbox_unix.go
+++ b/internal/rest/sandbox_unix.go
@@ -43,5 +43,8 @@ func MakeSandbox(chroot string, setuid int) {
 		if err:=syscall.Setuid(setuid); err!=nil {
 			panic(fmt.Sprintf("error setuid(%d): %s\n", setuid, err.Error()))
 		}
+		if syscall.Getuid()!=setuid || syscall.Geteuid()!=setuid { // the kernel truncates large numbers
+			panic(fmt.Sprintf("error setuid(%d): user id is %d/%d\n", setuid, syscall.Getuid(), syscall.Geteuid()))
+		}
 	}
 }
-- 
2.43.0


From c3b7648fd0f22afd7541a52d442230fdb9294dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:04 +0000
Subject: [PATCH 90/90] fix: star maps show every star inside the image, with
 finite values

---
 internal/fits/fits.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index 083679a..d14c53b 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -206,16 +206,18 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 }
 
 
-// Fill a circle of given radius on the FITS image
+// Fill a circle of given radius on the FITS image, at least one pixel. Clips the circle to the image
 func (f* Image) FillCircle(xc,yc,r,color float32) {
-	for y:=-r; y<=r; y+=0.5 {
-		for x:=-r; x<=r; x+=0.5 {
-			distSq:=y*y+x*x
-			if distSq<=r*r+1e-6 {
-				index:=int32(xc+x) + int32(yc+y)*(f.Naxisn[0])
-				if index>=0 && index<int32(len(f.Data)) {
-					f.Data[index]=color
-				}
+	width, height:=f.Naxisn[0], f.Naxisn[1]
+	xMid, yMid:=int32(math.Floor(float64(xc)+0.5)), int32(math.Floor(float64(yc)+0.5))
+	rad:=int32(math.Ceil(float64(r)))
+	for y:=yMid-rad; y<=yMid+rad; y++ {
+		if y<0 || y>=height { continue }
+		for x:=xMid-rad; x<=xMid+rad; x++ {
+			if x<0 || x>=width { continue }
+			dx, dy:=float32(x)-xc, float32(y)-yc
+			if dx*dx+dy*dy<=r*r+1e-6 || (x==xMid && y==yMid) {
+				f.Data[x+y*width]=color
 			}
 		}
 	}
@@ -227,7 +229,9 @@ func NewImageFromStars(src *Image, hfrMultiple float32) *Image {
 	res:=NewImageFromImage(src)
 	for _,s:=range(src.Stars) {
 		radius:=s.HFR*hfrMultiple
-		res.FillCircle(s.X, s.Y, radius, s.Mass/(radius*radius*float32(math.Pi)) )
+		area:=radius*radius*float32(math.Pi)
+		if area<1 { area=1 } // a single pixel
+		res.FillCircle(s.X, s.Y, radius, s.Mass/area)
 	}
 	return res
 }
-- 
2.43.0


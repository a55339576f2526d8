From 40a10b419227641d0665b4409a52ddc284b93bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:21 +0000
Subject: [PATCH 01/41] fix: do not overwrite the AES IV when deriving a key

bytes.NewBuffer(salt) took over the sub-slice of the coder properties, so a
short password was appended on top of the IV stored behind the salt and every
later open of the same stream decrypted its first block wrongly.
---
 internal/aes7z/key.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/aes7z/key.go b/internal/aes7z/key.go
index eb25326..9ca2712 100644
--- a/internal/aes7z/key.go
+++ b/internal/aes7z/key.go
@@ -54,7 +54,9 @@ func calculateKey(password string, cycles int, salt []byte) ([]byte, error) {
 		return key, nil
 	}
 
-	b := bytes.NewBuffer(salt)
+	// Copy the salt as appending to the slice could otherwise overwrite the
+	// initialisation vector that follows it in the coder properties
+	b := bytes.NewBuffer(bytes.Clone(salt))
 
 	// Convert password to UTF-16LE
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
-- 
2.43.0


From 507af380a9d7e74a0424319298d71b300c35ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:21 +0000
Subject: [PATCH 02/41] fix: support a delta distance of 256

The distance was computed in a byte and wrapped to zero, which made Read loop
forever.
---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index 0926a17..d4dce31 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -84,6 +84,6 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	return &readCloser{
 		rc:    readers[0],
-		delta: int(p[0] + 1),
+		delta: int(p[0]) + 1,
 	}, nil
 }
-- 
2.43.0


From c076f5f457487ccbca830477d67f1ee8e7068de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:21 +0000
Subject: [PATCH 03/41] fix: report EOF and decode all bytes in the delta
 filter

EOF was swallowed so reading a truncated stream never ended, and bytes returned
together with an error were handed out without being decoded.
---
 internal/delta/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index d4dce31..9221652 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -44,7 +44,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	n, err := rc.rc.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
-		return n, fmt.Errorf("delta: error reading: %w", err)
+		err = fmt.Errorf("delta: error reading: %w", err)
 	}
 
 	var (
@@ -69,7 +69,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	copy(rc.state[:], buffer[j:rc.delta])
 	copy(rc.state[rc.delta-j:], buffer[:j])
 
-	return n, nil
+	return n, err
 }
 
 // NewReader returns a new Delta io.ReadCloser.
-- 
2.43.0


From 2df356c36a938de7655a34d3e93083470f2656d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:24 +0000
Subject: [PATCH 04/41] fix: open empty files through fs.FS

File.Open returned a reader without a Stat method for files without a stream,
so Reader.Open panicked on the type assertion.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 8ff32ef..569daae 100644
--- a/reader.go
+++ b/reader.go
@@ -149,7 +149,7 @@ func (fr *fileReader) Close() error {
 func (f *File) Open() (io.ReadCloser, error) {
 	if f.isEmptyStream || f.isEmptyFile {
 		// Return empty reader for directory or empty file
-		return io.NopCloser(bytes.NewReader(nil)), nil
+		return &fileReader{f: f}, nil
 	}
 
 	rc, _ := f.zip.pool[f.folder].Get(f.offset)
-- 
2.43.0


From 9e4acb675c999cf2c34ba30dcdb52d5760d25a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:25 +0000
Subject: [PATCH 05/41] fix: return an error when reading a closed file

Reading after Close dereferenced a nil reader.
---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 569daae..83e4433 100644
--- a/reader.go
+++ b/reader.go
@@ -96,6 +96,10 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return 0, io.EOF
 	}
 
+	if fr.rc == nil {
+		return 0, fmt.Errorf("sevenzip: error reading: %w", iofs.ErrClosed)
+	}
+
 	if int64(len(p)) > fr.n {
 		p = p[0:fr.n]
 	}
-- 
2.43.0


From efbe1a5c7294ab8eabbc163325d24f6d4892f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:25 +0000
Subject: [PATCH 06/41] fix: report streams that end before the file does

A stream that ended early was reported as a clean EOF, silently truncating the
file.
---
 reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 83e4433..7fb1e38 100644
--- a/reader.go
+++ b/reader.go
@@ -107,7 +107,16 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 	n, err := fr.rc.Read(p)
 	fr.n -= int64(n)
 
-	if err != nil && !errors.Is(err, io.EOF) {
+	if errors.Is(err, io.EOF) {
+		if fr.n <= 0 {
+			return n, io.EOF
+		}
+
+		// The stream ended before all of the file could be read
+		err = io.ErrUnexpectedEOF
+	}
+
+	if err != nil {
 		e := &ReadError{
 			Err: err,
 		}
@@ -119,7 +128,7 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return n, e
 	}
 
-	return n, err //nolint:wrapcheck
+	return n, nil
 }
 
 func (fr *fileReader) Close() error {
-- 
2.43.0


From 65f36770ef90f7458c05613ce3d90c1493061efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:25 +0000
Subject: [PATCH 07/41] fix: do not reuse a reader that failed

After a read error the state of the decompressors is unknown. The reader was
still put back in the pool, so after a transient I/O error other files of the
stream were extracted with wrong contents without any error.
---
 reader.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 7fb1e38..bf0f188 100644
--- a/reader.go
+++ b/reader.go
@@ -78,9 +78,10 @@ type File struct {
 }
 
 type fileReader struct {
-	rc util.SizeReadSeekCloser
-	f  *File
-	n  int64
+	rc  util.SizeReadSeekCloser
+	f   *File
+	n   int64
+	err error
 }
 
 func (fr *fileReader) Stat() (iofs.FileInfo, error) {
@@ -100,6 +101,10 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return 0, fmt.Errorf("sevenzip: error reading: %w", iofs.ErrClosed)
 	}
 
+	if fr.err != nil {
+		return 0, fr.err
+	}
+
 	if int64(len(p)) > fr.n {
 		p = p[0:fr.n]
 	}
@@ -125,6 +130,9 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 			e.Encrypted = frc.hasEncryption
 		}
 
+		// The decompressor is now in an unknown state
+		fr.err = e
+
 		return n, e
 	}
 
@@ -141,7 +149,7 @@ func (fr *fileReader) Close() error {
 		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
 	}
 
-	if offset == fr.rc.Size() { // EOF reached
+	if fr.err != nil || offset == fr.rc.Size() { // Failed or EOF reached
 		if err := fr.rc.Close(); err != nil {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
-- 
2.43.0


From 98c60c5465379c327fc847046fc446624aefa7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:26 +0000
Subject: [PATCH 08/41] fix: close readers the pool does not keep

A reader offered for an offset that was already pooled was dropped without
being closed.
---
 internal/pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pool/pool.go b/internal/pool/pool.go
index bd7194d..fc1283b 100644
--- a/internal/pool/pool.go
+++ b/internal/pool/pool.go
@@ -88,7 +88,7 @@ func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
 	defer p.mutex.Unlock()
 
 	if _, ok := p.items[offset]; ok {
-		return false, nil
+		return false, rc.Close() //nolint:wrapcheck
 	}
 
 	ent := &entry{offset, rc}
-- 
2.43.0


From 23908f3108f66876c3a96d150e04cfa0f657ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:26 +0000
Subject: [PATCH 09/41] fix: close the reader when a file cannot be reached

Open dropped the stream reader without closing it when skipping to the start of
the file failed.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index bf0f188..ee2cd9b 100644
--- a/reader.go
+++ b/reader.go
@@ -191,7 +191,7 @@ func (f *File) Open() (io.ReadCloser, error) {
 
 	if _, err := rc.Seek(f.offset, io.SeekStart); err != nil {
 		e := &ReadError{
-			Err: err,
+			Err: errors.Join(err, rc.Close()),
 		}
 
 		if fr, ok := rc.(*folderReadCloser); ok {
-- 
2.43.0


From 441f3624723b311be7d962b4b74ba7912db36911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:26 +0000
Subject: [PATCH 10/41] fix: hint at encryption when setting the password fails

The flag coderReader returned together with the error was dropped.
---
 struct.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index bb6ddca..dd591cb 100644
--- a/struct.go
+++ b/struct.go
@@ -305,14 +305,15 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		)
 
 		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
-		if err != nil {
-			return nil, 0, hasEncryption, err
-		}
 
 		if isEncrypted {
 			hasEncryption = true
 		}
 
+		if err != nil {
+			return nil, 0, hasEncryption, err
+		}
+
 		input += c.in
 		output += c.out
 	}
-- 
2.43.0


From f2158e06ca3261b354964cae54f9775ca6a8cba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:27 +0000
Subject: [PATCH 11/41] fix: handle short reads of coder ids and properties

A reader may return less than requested, for instance at the end of the 4096
byte buffer, so valid archives with larger headers failed to open with
"incomplete read" depending on the position of a coder in the header.
---
 types.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/types.go b/types.go
index dfeb2b2..ba24824 100644
--- a/types.go
+++ b/types.go
@@ -47,7 +47,6 @@ const (
 )
 
 var (
-	errIncompleteRead         = errors.New("sevenzip: incomplete read")
 	errUnexpectedID           = errors.New("sevenzip: unexpected id")
 	errMissingUnpackInfo      = errors.New("sevenzip: missing unpack info")
 	errWrongNumberOfFilenames = errors.New("sevenzip: wrong number of filenames")
@@ -269,12 +268,8 @@ func readCoder(r util.Reader) (*coder, error) {
 	}
 
 	c.id = make([]byte, v&0xf)
-	if n, err := r.Read(c.id); err != nil || n != int(v&0xf) {
-		if err != nil {
-			return nil, fmt.Errorf("readCoder: Read error: %w", err)
-		}
-
-		return nil, errIncompleteRead
+	if _, err := io.ReadFull(r, c.id); err != nil {
+		return nil, fmt.Errorf("readCoder: Read error: %w", err)
 	}
 
 	if v&0x10 != 0 {
@@ -298,12 +293,8 @@ func readCoder(r util.Reader) (*coder, error) {
 		}
 
 		c.properties = make([]byte, size)
-		if n, err := r.Read(c.properties); err != nil || uint64(n) != size { //nolint:gosec
-			if err != nil {
-				return nil, fmt.Errorf("readCoder: Read error: %w", err)
-			}
-
-			return nil, errIncompleteRead
+		if _, err := io.ReadFull(r, c.properties); err != nil {
+			return nil, fmt.Errorf("readCoder: Read error: %w", err)
 		}
 	}
 
-- 
2.43.0


From 834665694668a9f184dfad7ec31bc8d7990cf009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:27 +0000
Subject: [PATCH 12/41] fix: support the whole range of file times

Times that cannot be represented as nanoseconds since 1970 came out as an
unrelated date.
---
 types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index ba24824..12c4425 100644
--- a/types.go
+++ b/types.go
@@ -650,7 +650,14 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
 			}
 
-			times[i] = time.Unix(0, ft.Nanoseconds()).UTC()
+			// Nanoseconds since the epoch would overflow outside of the years 1677 to 2262
+			const (
+				ticks  = 10_000_000     // per second
+				offset = 11_644_473_600 // seconds from 1601 to 1970
+			)
+
+			t := uint64(ft.HighDateTime)<<32 | uint64(ft.LowDateTime)
+			times[i] = time.Unix(int64(t/ticks)-offset, int64(t%ticks)*100).UTC() //nolint:gosec
 		}
 	}
 
-- 
2.43.0


From c56ab7dffc024897715bfcd28a35544364bcd113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:27 +0000
Subject: [PATCH 13/41] fix: find the signature in small split self-extracting
 archives

The reader over multiple volumes reports the end of the data with
io.ErrUnexpectedEOF, which made the search fail if the archive does not start
at the beginning of the first volume.
---
 reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index ee2cd9b..851ba76 100644
--- a/reader.go
+++ b/reader.go
@@ -390,7 +390,8 @@ func findSignature(r io.ReaderAt, search []byte) ([]int64, error) {
 		}
 
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			// Multiple volumes are read with a readerutil.MultiReaderAt which returns io.ErrUnexpectedEOF
+			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
 				break
 			}
 
-- 
2.43.0


From 8472e3d2b52cdfdf986ae1d0e33f4fdfdb339907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:19 +0000
Subject: [PATCH 14/41] fix: return errors for inconsistent headers

Headers whose stream counts, bind pairs, packed stream indices or number of
files do not fit together made the reader panic with an index out of range, a
nil dereference or an oversized allocation.
---
 struct.go | 14 +++++++++++
 types.go  | 70 +++++++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 72 insertions(+), 12 deletions(-)

diff --git a/struct.go b/struct.go
index dd591cb..df33741 100644
--- a/struct.go
+++ b/struct.go
@@ -210,6 +210,20 @@ func (si *streamsInfo) Folders() int {
 	return 0
 }
 
+// Streams returns the number of files held by all of the folders.
+func (si *streamsInfo) Streams() uint64 {
+	if si == nil || si.subStreamsInfo == nil {
+		return uint64(si.Folders()) //nolint:gosec
+	}
+
+	streams := uint64(0)
+	for _, v := range si.subStreamsInfo.streams {
+		streams += v
+	}
+
+	return streams
+}
+
 func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	var (
 		folder  int
diff --git a/types.go b/types.go
index 12c4425..1e40fb1 100644
--- a/types.go
+++ b/types.go
@@ -53,6 +53,10 @@ var (
 	errUint64NonZero          = errors.New("sevenzip: uint64 value must be non-zero")
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
+	errMissingSizes           = errors.New("sevenzip: missing sizes")
+	errInvalidSize            = errors.New("sevenzip: invalid size")
+	errMissingStreams         = errors.New("sevenzip: more files than streams")
+	errMissingPackedStreams   = errors.New("sevenzip: more packed streams used than available")
 )
 
 func checkUint64(v uint64, nonZero bool) error {
@@ -351,6 +355,10 @@ func readFolder(r util.Reader) (*folder, error) {
 			return nil, err
 		}
 
+		if in >= f.in || out >= f.out {
+			return nil, errInvalidBindPair
+		}
+
 		f.bindPair = append(f.bindPair, &bindPair{
 			in:  in,
 			out: out,
@@ -366,12 +374,23 @@ func readFolder(r util.Reader) (*folder, error) {
 				f.packed = append(f.packed, i)
 			}
 		}
+
+		if len(f.packed) != 1 {
+			return nil, errInvalidBindPair
+		}
 	} else {
-		f.packed = make([]uint64, f.packedStreams)
-		for i := range f.packedStreams {
-			if f.packed[i], err = readUint64(r); err != nil {
+		f.packed = make([]uint64, 0, min(f.packedStreams, 16))
+		for range f.packedStreams {
+			packed, err := readUint64(r)
+			if err != nil {
 				return nil, err
 			}
+
+			if packed >= f.in {
+				return nil, errInvalidBindPair
+			}
+
+			f.packed = append(f.packed, packed)
 		}
 	}
 
@@ -486,7 +505,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	s.streams = make([]uint64, len(folder))
 	if id == idNumUnpackStream {
 		for i := range s.streams {
-			if s.streams[i], err = readUint64(r); err != nil {
+			if s.streams[i], err = readUint64Bounded(r, false); err != nil {
 				return nil, err
 			}
 		}
@@ -503,17 +522,24 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 
 	// Count the files in each stream
 	files := uint64(0)
+	split := false
+
 	for _, v := range s.streams {
 		files += v
+		split = split || v > 1
 	}
 
 	if err := checkUint64(files, false); err != nil {
 		return nil, err
 	}
 
+	// The sizes can only be left out if no folder holds more than one file
+	if split && id != idSize {
+		return nil, errMissingSizes
+	}
+
 	if id == idSize {
-		s.size = make([]uint64, files)
-		k := 0
+		s.size = make([]uint64, 0, min(files, 1024))
 
 		for i := range s.streams {
 			if s.streams[i] == 0 {
@@ -523,16 +549,20 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 			total := uint64(0)
 
 			for j := uint64(1); j < s.streams[i]; j++ {
-				if s.size[k], err = readUint64(r); err != nil {
+				size, err := readUint64(r)
+				if err != nil {
 					return nil, err
 				}
 
-				total += s.size[k]
-				k++
+				if size > folder[i].unpackSize()-total {
+					return nil, errInvalidSize
+				}
+
+				s.size = append(s.size, size)
+				total += size
 			}
 
-			s.size[k] = folder[i].unpackSize() - total
-			k++
+			s.size = append(s.size, folder[i].unpackSize()-total)
 		}
 
 		id, err = r.ReadByte()
@@ -609,6 +639,17 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 		return nil, errUnexpectedID
 	}
 
+	if s.unpackInfo != nil {
+		var packed uint64
+		for _, f := range s.unpackInfo.folder {
+			packed += f.packedStreams
+		}
+
+		if packed > 0 && (s.packInfo == nil || packed > uint64(len(s.packInfo.size))) {
+			return nil, errMissingPackedStreams
+		}
+	}
+
 	return s, nil
 }
 
@@ -937,10 +978,11 @@ func readHeader(r util.Reader) (*header, error) {
 		return nil, errUnexpectedID
 	}
 
-	if h.streamsInfo == nil || h.filesInfo == nil {
+	if h.filesInfo == nil {
 		return h, nil
 	}
 
+	streams := h.streamsInfo.Streams()
 	j := 0
 
 	for i := range h.filesInfo.file {
@@ -948,6 +990,10 @@ func readHeader(r util.Reader) (*header, error) {
 			continue
 		}
 
+		if uint64(j) >= streams { //nolint:gosec
+			return nil, errMissingStreams
+		}
+
 		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32 = h.streamsInfo.FileFolderAndSize(j)
 		j++
 	}
-- 
2.43.0


From b288f0864a9ce09df41c691072366cd029d1bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:19 +0000
Subject: [PATCH 15/41] fix: map files to folders without substreams info

Every file was read from the first folder when the optional substreams info is
left out although each folder holds one file.
---
 struct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index df33741..4700689 100644
--- a/struct.go
+++ b/struct.go
@@ -225,8 +225,9 @@ func (si *streamsInfo) Streams() uint64 {
 }
 
 func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
+	// Without any substreams there is one file per folder
 	var (
-		folder  int
+		folder         = file
 		streams uint64 = 1
 		crc     uint32
 	)
-- 
2.43.0


From c639e6397c4aec15a511ee29c7fa255a159f5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:20 +0000
Subject: [PATCH 16/41] fix: report missing addresses in the BCJ2 filter

When the call or jump stream ended early the address was left out and the bytes
that follow were returned as if nothing happened.
---
 internal/bcj2/reader.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/bcj2/reader.go b/internal/bcj2/reader.go
index 4cc99b4..1bb7281 100644
--- a/internal/bcj2/reader.go
+++ b/internal/bcj2/reader.go
@@ -212,11 +212,12 @@ func (rc *readCloser) read() error {
 
 		var dest uint32
 		if err = binary.Read(r, binary.BigEndian, &dest); err != nil {
-			if !errors.Is(err, io.EOF) {
-				err = fmt.Errorf("bcj2: error reading uint32: %w", err)
+			// The opcode has to be followed by its address
+			if errors.Is(err, io.EOF) {
+				err = io.ErrUnexpectedEOF
 			}
 
-			return err
+			return fmt.Errorf("bcj2: error reading uint32: %w", err)
 		}
 
 		dest -= rc.written + 4
-- 
2.43.0


From 42741f15377e3797aebd56b15dce4ce69b8d6970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:20 +0000
Subject: [PATCH 17/41] fix: report a truncated range coder stream in the BCJ2
 filter

Once the range coder stream ended the decisions were decoded from zeroes and
wrong bytes were returned without an error.
---
 internal/bcj2/reader.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/bcj2/reader.go b/internal/bcj2/reader.go
index 1bb7281..ed18fda 100644
--- a/internal/bcj2/reader.go
+++ b/internal/bcj2/reader.go
@@ -19,6 +19,7 @@ type readCloser struct {
 	rd     util.ReadCloser
 	nrange uint
 	code   uint
+	eof    bool
 
 	sd [256 + 2]uint
 
@@ -130,8 +131,13 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 func (rc *readCloser) update() error {
 	if rc.nrange < topValue {
 		b, err := rc.rd.ReadByte()
-		if err != nil && !errors.Is(err, io.EOF) {
-			return fmt.Errorf("bcj2: error reading byte: %w", err)
+		if err != nil {
+			if !errors.Is(err, io.EOF) {
+				return fmt.Errorf("bcj2: error reading byte: %w", err)
+			}
+
+			// Not an error unless there is something left to decode
+			rc.eof = true
 		}
 
 		rc.code = (rc.code << 8) | uint(b)
@@ -142,6 +148,10 @@ func (rc *readCloser) update() error {
 }
 
 func (rc *readCloser) decode(i int) (bool, error) {
+	if rc.eof {
+		return false, fmt.Errorf("bcj2: error reading byte: %w", io.ErrUnexpectedEOF)
+	}
+
 	newBound := (rc.nrange >> numbitModelTotalBits) * rc.sd[i]
 
 	if rc.code < newBound {
-- 
2.43.0


From 8d78ab598241570d221c724b5d5337eb18e7c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:20 +0000
Subject: [PATCH 18/41] fix: open archives without a header

7-Zip writes only the signature and start header for an archive that has no
files.
---
 reader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/reader.go b/reader.go
index 851ba76..5979128 100644
--- a/reader.go
+++ b/reader.go
@@ -470,6 +470,15 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 
 	h.Reset()
 
+	// An archive without a header has no files, its CRC is the one of no data
+	if start.Size == 0 {
+		if start.CRC != 0 {
+			return errChecksum
+		}
+
+		return nil
+	}
+
 	// Bound bufio.Reader otherwise it can read trailing garbage which screws up the CRC check
 	br := bufio.NewReader(io.NewSectionReader(tra, z.end, int64(start.Size))) //nolint:gosec
 
-- 
2.43.0


From b315fc1514bb1f6845e5e872eef39985dd35f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 19/41] fix: read digests of files next to folders with a
 digest

The digest of a folder that holds one file is not repeated among those of the
files, and a folder without a digest does not hide the one of its file.
---
 struct.go | 11 ++++++++---
 types.go  | 43 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/struct.go b/struct.go
index 4700689..6cb72c3 100644
--- a/struct.go
+++ b/struct.go
@@ -186,8 +186,13 @@ func (f *folder) unpackSize() uint64 {
 }
 
 type unpackInfo struct {
-	folder []*folder
-	digest []uint32
+	folder  []*folder
+	digest  []uint32
+	defined []bool
+}
+
+func (u *unpackInfo) hasDigest(folder int) bool {
+	return folder < len(u.defined) && u.defined[folder]
 }
 
 type subStreamsInfo struct {
@@ -248,7 +253,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	}
 
 	if streams == 1 {
-		if len(si.unpackInfo.digest) > 0 {
+		if si.unpackInfo.hasDigest(folder) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
diff --git a/types.go b/types.go
index 1e40fb1..c7c15dc 100644
--- a/types.go
+++ b/types.go
@@ -189,14 +189,14 @@ func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
 	return sizes, nil
 }
 
-func readCRC(r util.Reader, count uint64) ([]uint32, error) {
+func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 	if err := checkUint64(count, true); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	defined, err := readOptionalBool(r, count)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	crcs := make([]uint32, count)
@@ -204,12 +204,12 @@ func readCRC(r util.Reader, count uint64) ([]uint32, error) {
 	for i := range defined {
 		if defined[i] {
 			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
-				return nil, fmt.Errorf("readCRC: Read error: %w", err)
+				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
 	}
 
-	return crcs, nil
+	return crcs, defined, nil
 }
 
 //nolint:cyclop
@@ -245,7 +245,7 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 	}
 
 	if id == idCRC {
-		if p.digest, err = readCRC(r, p.streams); err != nil {
+		if p.digest, _, err = readCRC(r, p.streams); err != nil {
 			return nil, err
 		}
 
@@ -476,7 +476,7 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 	}
 
 	if id == idCRC {
-		if u.digest, err = readCRC(r, folders); err != nil {
+		if u.digest, u.defined, err = readCRC(r, folders); err != nil {
 			return nil, err
 		}
 
@@ -494,8 +494,8 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 }
 
 //nolint:cyclop,funlen,gocognit
-func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error) {
-	s := new(subStreamsInfo)
+func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
+	s, folder := new(subStreamsInfo), u.folder
 
 	id, err := r.ReadByte()
 	if err != nil {
@@ -572,10 +572,31 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	}
 
 	if id == idCRC {
-		if s.digest, err = readCRC(r, files); err != nil {
+		// A folder that holds one file and has its own digest is left out
+		unknown := uint64(0)
+
+		for i, v := range s.streams {
+			if v != 1 || !u.hasDigest(i) {
+				unknown += v
+			}
+		}
+
+		digest, _, err := readCRC(r, unknown)
+		if err != nil {
 			return nil, err
 		}
 
+		s.digest = make([]uint32, 0, files)
+
+		for i, v := range s.streams {
+			if v == 1 && u.hasDigest(i) {
+				s.digest = append(s.digest, u.digest[i])
+			} else {
+				s.digest = append(s.digest, digest[:v]...)
+				digest = digest[v:]
+			}
+		}
+
 		id, err = r.ReadByte()
 		if err != nil {
 			return nil, fmt.Errorf("readSubStreamsInfo: ReadByte error: %w", err)
@@ -625,7 +646,7 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 			return nil, errMissingUnpackInfo
 		}
 
-		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo.folder); err != nil {
+		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 69e9ddb0ce6229ba5e69b34a0aa6b48bd309a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 20/41] fix: verify the encoded header against a digest of zero

A digest of zero was taken for a missing one.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 5979128..aca0bd0 100644
--- a/reader.go
+++ b/reader.go
@@ -548,7 +548,7 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 			}
 		}
 
-		if crc != 0 && !util.CRC32Equal(fr.Checksum(), crc) {
+		if streamsInfo.unpackInfo.hasDigest(0) && !util.CRC32Equal(fr.Checksum(), crc) {
 			return errChecksum
 		}
 	}
-- 
2.43.0


From f32631fccf56ac867d3bd65791804f2ac773b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 21/41] fix: recognise directories without attributes

Directories are the entries without a stream that are not marked as empty
files, the attributes are optional.
---
 struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/struct.go b/struct.go
index 6cb72c3..1d4d0e2 100644
--- a/struct.go
+++ b/struct.go
@@ -434,6 +434,15 @@ func (h *FileHeader) Mode() (mode iofs.FileMode) {
 		mode = msdosModeToFileMode(h.Attributes)
 	}
 
+	// Without a stream it's a directory unless it's marked as an empty file
+	if h.isEmptyStream && !h.isEmptyFile && mode.IsRegular() {
+		if h.Attributes&0xf0000000 == 0 {
+			mode = msdosModeToFileMode(h.Attributes | msdosDir)
+		}
+
+		mode |= iofs.ModeDir
+	}
+
 	return
 }
 
-- 
2.43.0


From 0b3603171f75dd43940c60ca4ad627da52550d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 22/41] fix: leave the root directory out of its own listing

Names such as "." or "a/.." were listed as an entry of the root directory that
is the root directory itself, and ".." as one that cannot be opened.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index aca0bd0..b4fd734 100644
--- a/reader.go
+++ b/reader.go
@@ -709,7 +709,7 @@ func (z *Reader) initFileList() {
 			isDir := len(file.Name) > 0 && file.Name[len(file.Name)-1] == '/'
 
 			name := toValidName(file.Name)
-			if name == "" {
+			if name == "" || name == "." || name == ".." {
 				continue
 			}
 
-- 
2.43.0


From 7e6e50f57f3f3d8db301bdaac350db6e9c5a1bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 23/41] fix: use the same file names in a file and its
 directory

Names with backslashes or dot elements are cleaned for fs.FS but Name still
returned the last element of the original name.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 1d4d0e2..df99bc7 100644
--- a/struct.go
+++ b/struct.go
@@ -396,7 +396,7 @@ type headerFileInfo struct {
 	fh *FileHeader
 }
 
-func (fi headerFileInfo) Name() string        { return path.Base(fi.fh.Name) }
+func (fi headerFileInfo) Name() string        { return path.Base(toValidName(fi.fh.Name)) }
 func (fi headerFileInfo) Size() int64         { return int64(fi.fh.UncompressedSize) } //nolint:gosec
 func (fi headerFileInfo) IsDir() bool         { return fi.Mode().IsDir() }
 func (fi headerFileInfo) ModTime() time.Time  { return fi.fh.Modified.UTC() }
-- 
2.43.0


From aadaf330082bbcee584831981a1b6c2c42bf17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:20 +0000
Subject: [PATCH 24/41] fix: do not allocate memory for files a header cannot
 hold

A few bytes of header were enough to have slices for four billion files, times,
attributes or digests allocated, which crashes the process. Only allocate what
the rest of the header accounts for.
---
 struct.go |   2 +-
 types.go  | 168 +++++++++++++++++++++++++++++-------------------------
 2 files changed, 92 insertions(+), 78 deletions(-)

diff --git a/struct.go b/struct.go
index df99bc7..ac7f081 100644
--- a/struct.go
+++ b/struct.go
@@ -192,7 +192,7 @@ type unpackInfo struct {
 }
 
 func (u *unpackInfo) hasDigest(folder int) bool {
-	return folder < len(u.defined) && u.defined[folder]
+	return folder < len(u.digest) && (u.defined == nil || u.defined[folder])
 }
 
 type subStreamsInfo struct {
diff --git a/types.go b/types.go
index c7c15dc..58ba8a5 100644
--- a/types.go
+++ b/types.go
@@ -145,6 +145,8 @@ func readBool(r io.ByteReader, count uint64) ([]bool, error) {
 	return defined, nil
 }
 
+// readOptionalBool returns nil if all values are defined, there is nothing in
+// the input that backs up the count in that case.
 func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -159,12 +161,7 @@ func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 		return readBool(r, count)
 	}
 
-	defined := make([]bool, count)
-	for i := range defined {
-		defined[i] = true
-	}
-
-	return defined, nil
+	return nil, nil
 }
 
 func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
@@ -199,14 +196,18 @@ func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 		return nil, nil, err
 	}
 
-	crcs := make([]uint32, count)
+	crcs := make([]uint32, 0, min(count, 1024))
+
+	for i := range count {
+		var crc uint32
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
+		if defined == nil || defined[i] {
+			if err := binary.Read(r, binary.LittleEndian, &crc); err != nil {
 				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
+
+		crcs = append(crcs, crc)
 	}
 
 	return crcs, defined, nil
@@ -244,7 +245,7 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 		}
 	}
 
-	if id == idCRC {
+	if id == idCRC && p.size != nil {
 		if p.digest, _, err = readCRC(r, p.streams); err != nil {
 			return nil, err
 		}
@@ -703,10 +704,12 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 		return nil, errors.New("sevenzip: TODO readTimes external") //nolint:err113
 	}
 
-	times := make([]time.Time, count)
+	times := make([]time.Time, 0, min(count, 1024))
 
-	for i := range defined {
-		if defined[i] {
+	for i := range count {
+		var tm time.Time
+
+		if defined == nil || defined[i] {
 			var ft windows.Filetime
 			if err := binary.Read(r, binary.LittleEndian, &ft); err != nil {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
@@ -719,8 +722,10 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 			)
 
 			t := uint64(ft.HighDateTime)<<32 | uint64(ft.LowDateTime)
-			times[i] = time.Unix(int64(t/ticks)-offset, int64(t%ticks)*100).UTC() //nolint:gosec
+			tm = time.Unix(int64(t/ticks)-offset, int64(t%ticks)*100).UTC() //nolint:gosec
 		}
+
+		times = append(times, tm)
 	}
 
 	return times, nil
@@ -770,7 +775,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
 	scanner.Split(splitNull)
 
-	names, i := make([]string, 0, count), uint64(0)
+	names, i := make([]string, 0, min(count, 1024)), uint64(0)
 	for scanner.Scan() {
 		names = append(names, scanner.Text())
 		i++
@@ -816,21 +821,25 @@ func readAttributes(r util.Reader, count uint64) ([]uint32, error) {
 		return nil, errors.New("sevenzip: TODO readAttributes external") //nolint:err113
 	}
 
-	attributes := make([]uint32, count)
+	attributes := make([]uint32, 0, min(count, 1024))
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &attributes[i]); err != nil {
+	for i := range count {
+		var attribute uint32
+
+		if defined == nil || defined[i] {
+			if err := binary.Read(r, binary.LittleEndian, &attribute); err != nil {
 				return nil, fmt.Errorf("readAttributes: Read error: %w", err)
 			}
 		}
+
+		attributes = append(attributes, attribute)
 	}
 
 	return attributes, nil
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func readFilesInfo(r util.Reader) (*filesInfo, error) {
+func readFilesInfo(r util.Reader, streams uint64) (*filesInfo, error) {
 	f := new(filesInfo)
 
 	files, err := readUint64Bounded(r, true)
@@ -838,9 +847,14 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 		return nil, err
 	}
 
-	f.file = make([]FileHeader, files)
-
-	var emptyStreams uint64
+	// The number of files isn't backed up by anything until everything has been read
+	var (
+		emptyStreams            uint64
+		emptyStream, emptyFile  []bool
+		names                   []string
+		created, accessed, mods []time.Time
+		attributes              []uint32
+	)
 
 	for {
 		property, err := r.ReadByte()
@@ -859,77 +873,41 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 
 		switch property {
 		case idEmptyStream:
-			empty, err := readBool(r, files)
-			if err != nil {
+			if emptyStream, err = readBool(r, files); err != nil {
 				return nil, err
 			}
 
-			for i := range f.file {
-				f.file[i].isEmptyStream = empty[i]
+			emptyStreams, emptyFile = 0, nil
 
-				if empty[i] {
+			for _, empty := range emptyStream {
+				if empty {
 					emptyStreams++
 				}
 			}
 		case idEmptyFile:
-			empty, err := readBool(r, emptyStreams)
-			if err != nil {
+			if emptyFile, err = readBool(r, emptyStreams); err != nil {
 				return nil, err
 			}
-
-			j := 0
-
-			for i := range f.file {
-				if f.file[i].isEmptyStream {
-					f.file[i].isEmptyFile = empty[j]
-					j++
-				}
-			}
 		case idCTime:
-			times, err := readTimes(r, files)
-			if err != nil {
+			if created, err = readTimes(r, files); err != nil {
 				return nil, err
 			}
-
-			for i, t := range times {
-				f.file[i].Created = t
-			}
 		case idATime:
-			times, err := readTimes(r, files)
-			if err != nil {
+			if accessed, err = readTimes(r, files); err != nil {
 				return nil, err
 			}
-
-			for i, t := range times {
-				f.file[i].Accessed = t
-			}
 		case idMTime:
-			times, err := readTimes(r, files)
-			if err != nil {
+			if mods, err = readTimes(r, files); err != nil {
 				return nil, err
 			}
-
-			for i, t := range times {
-				f.file[i].Modified = t
-			}
 		case idName:
-			names, err := readNames(r, files, length)
-			if err != nil {
+			if names, err = readNames(r, files, length); err != nil {
 				return nil, err
 			}
-
-			for i, n := range names {
-				f.file[i].Name = n
-			}
 		case idWinAttributes:
-			attributes, err := readAttributes(r, files)
-			if err != nil {
+			if attributes, err = readAttributes(r, files); err != nil {
 				return nil, err
 			}
-
-			for i, a := range attributes {
-				f.file[i].Attributes = a
-			}
 		case idStartPos:
 			return nil, errors.New("sevenzip: TODO idStartPos") //nolint:err113
 		case idDummy:
@@ -941,6 +919,47 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 		}
 	}
 
+	// All the other files need a stream
+	if files-emptyStreams > streams {
+		return nil, errMissingStreams
+	}
+
+	f.file = make([]FileHeader, files)
+
+	j := 0
+
+	for i := range f.file {
+		if emptyStream != nil && emptyStream[i] {
+			f.file[i].isEmptyStream = true
+
+			if emptyFile != nil {
+				f.file[i].isEmptyFile = emptyFile[j]
+			}
+
+			j++
+		}
+
+		if names != nil {
+			f.file[i].Name = names[i]
+		}
+
+		if created != nil {
+			f.file[i].Created = created[i]
+		}
+
+		if accessed != nil {
+			f.file[i].Accessed = accessed[i]
+		}
+
+		if mods != nil {
+			f.file[i].Modified = mods[i]
+		}
+
+		if attributes != nil {
+			f.file[i].Attributes = attributes[i]
+		}
+	}
+
 	return f, nil
 }
 
@@ -985,7 +1004,7 @@ func readHeader(r util.Reader) (*header, error) {
 	}
 
 	if id == idFilesInfo {
-		if h.filesInfo, err = readFilesInfo(r); err != nil {
+		if h.filesInfo, err = readFilesInfo(r, h.streamsInfo.Streams()); err != nil {
 			return nil, err
 		}
 
@@ -999,11 +1018,10 @@ func readHeader(r util.Reader) (*header, error) {
 		return nil, errUnexpectedID
 	}
 
-	if h.filesInfo == nil {
+	if h.streamsInfo == nil || h.filesInfo == nil {
 		return h, nil
 	}
 
-	streams := h.streamsInfo.Streams()
 	j := 0
 
 	for i := range h.filesInfo.file {
@@ -1011,10 +1029,6 @@ func readHeader(r util.Reader) (*header, error) {
 			continue
 		}
 
-		if uint64(j) >= streams { //nolint:gosec
-			return nil, errMissingStreams
-		}
-
 		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32 = h.streamsInfo.FileFolderAndSize(j)
 		j++
 	}
-- 
2.43.0


From 54e5cb0c9c01166dd6cff6e96221f3294ee3efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 25/41] fix: do not allocate memory for missing coder
 properties

The size of the properties was allocated, up to four gigabytes, before it turned
out that the header does not hold as many bytes.
---
 types.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 58ba8a5..c3b864a 100644
--- a/types.go
+++ b/types.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"math"
 	"math/bits"
+	"slices"
 	"time"
 
 	"github.com/bodgit/sevenzip/internal/util"
@@ -297,10 +298,12 @@ func readCoder(r util.Reader) (*coder, error) {
 			return nil, err
 		}
 
-		c.properties = make([]byte, size)
-		if _, err := io.ReadFull(r, c.properties); err != nil {
+		properties := new(bytes.Buffer)
+		if _, err := io.CopyN(properties, r, int64(size)); err != nil { //nolint:gosec
 			return nil, fmt.Errorf("readCoder: Read error: %w", err)
 		}
+
+		c.properties = slices.Clip(properties.Bytes())
 	}
 
 	return c, nil
-- 
2.43.0


From 0b6f5828bde66565ebc590a6bc5cc389d975d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 26/41] fix: tell truncated archives from streams that end
 early

An archive that ends within a packed stream is always an error. An encrypted
stream that ends early is not, as nothing can be said about the data without the
right password (TestBraRead reads an encrypted file without one).
---
 reader.go |  7 ++++++-
 struct.go | 20 +++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index b4fd734..5031da4 100644
--- a/reader.go
+++ b/reader.go
@@ -117,7 +117,12 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 			return n, io.EOF
 		}
 
-		// The stream ended before all of the file could be read
+		// The stream ended before all of the file could be read. A wrong
+		// password can lead to anything, don't take that for an error here
+		if frc, ok := fr.rc.(*folderReadCloser); ok && frc.hasEncryption {
+			return n, io.EOF
+		}
+
 		err = io.ErrUnexpectedEOF
 	}
 
diff --git a/struct.go b/struct.go
index ac7f081..7f0bffe 100644
--- a/struct.go
+++ b/struct.go
@@ -263,6 +263,23 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	return folder, si.subStreamsInfo.size[file], crc
 }
 
+// packedReader reports when the archive ends before the packed stream does.
+type packedReader struct {
+	*io.SectionReader
+}
+
+func (pr *packedReader) Read(p []byte) (int, error) {
+	n, err := pr.SectionReader.Read(p)
+
+	if errors.Is(err, io.EOF) {
+		if pos, _ := pr.Seek(0, io.SeekCurrent); pos < pr.Size() {
+			return n, io.ErrUnexpectedEOF
+		}
+	}
+
+	return n, err //nolint:wrapcheck
+}
+
 func (si *streamsInfo) folderOffset(folder int) int64 {
 	offset := uint64(0)
 
@@ -292,7 +309,8 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 
 	for i, input := range f.packed {
 		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
-		in[input] = util.NopCloser(bufio.NewReader(io.NewSectionReader(r, si.folderOffset(folder)+offset, size)))
+		sr := &packedReader{io.NewSectionReader(r, si.folderOffset(folder)+offset, size)}
+		in[input] = util.NopCloser(bufio.NewReader(sr))
 		offset += size
 	}
 
-- 
2.43.0


From 835b5f0db577764d7dfbc80592a8f1c3782d509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 27/41] fix: accept short Brotli streams without a frame

---
 internal/brotli/reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index a07b764..fce38f3 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -80,8 +80,10 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	// The 7-Zip Brotli compressor adds a 16 byte frame to the beginning of
 	// the data which will confuse a pure Brotli implementation. Read it
-	// but keep a copy so we can add it back if it doesn't look right
-	if err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr); err != nil {
+	// but keep a copy so we can add it back if it doesn't look right. A pure
+	// Brotli stream can be shorter than the frame
+	if err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr); err != nil &&
+		!errors.Is(err, io.ErrUnexpectedEOF) {
 		if !errors.Is(err, io.EOF) {
 			err = fmt.Errorf("brotli: error reading frame: %w", err)
 		}
-- 
2.43.0


From 72864f905beec7f494c507c9badb767a84f6078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 28/41] fix: stop the Zstandard decoder before closing its
 input

---
 internal/zstd/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index 6817f1a..6a70250 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -29,6 +29,10 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
+	// The decoder reads ahead in another goroutine, wait for that to end
+	// before closing what it reads from
+	_ = rc.r.Reset(nil)
+
 	if err := rc.c.Close(); err != nil {
 		return fmt.Errorf("zstd: error closing: %w", err)
 	}
-- 
2.43.0


From 94ed3123cc0a64225a1f077bbbc6c805fe63a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 29/41] fix: don't lose the last byte of a header when it is
 decoded together with EOF

---
 internal/util/reader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/util/reader.go b/internal/util/reader.go
index 21d2c94..e0f4f1b 100644
--- a/internal/util/reader.go
+++ b/internal/util/reader.go
@@ -1,7 +1,10 @@
 // Package util implements various utility types and interfaces.
 package util
 
-import "io"
+import (
+	"errors"
+	"io"
+)
 
 // SizeReadSeekCloser is an io.Reader, io.Seeker, and io.Closer with a Size
 // method.
@@ -46,7 +49,7 @@ func (rc *byteReadCloser) ReadByte() (byte, error) {
 	var b [1]byte
 
 	n, err := rc.Read(b[:])
-	if err != nil {
+	if err != nil && (n == 0 || !errors.Is(err, io.EOF)) { // EOF can come with the last byte
 		return 0, err //nolint:wrapcheck
 	}
 
-- 
2.43.0


From 6f0f56d610083e2e4d46184744c420b8ec044e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 30/41] fix: read names that take more than 64 KiB

---
 types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types.go b/types.go
index c3b864a..0d9d054 100644
--- a/types.go
+++ b/types.go
@@ -777,6 +777,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
 	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
 	scanner.Split(splitNull)
+	scanner.Buffer(nil, math.MaxInt) // Names can be longer than the default limit
 
 	names, i := make([]string, 0, min(count, 1024)), uint64(0)
 	for scanner.Scan() {
-- 
2.43.0


From c60772b5bae9b2fbeb7d845a30d98aaa8355b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 31/41] fix: reject data after the end of a compressed header

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 5031da4..0f33878 100644
--- a/reader.go
+++ b/reader.go
@@ -553,6 +553,11 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 			}
 		}
 
+		// As above, all of the decoded header should have been read
+		if n, _ := io.CopyN(io.Discard, fr, 1); n != 0 {
+			return errTooMuch
+		}
+
 		if streamsInfo.unpackInfo.hasDigest(0) && !util.CRC32Equal(fr.Checksum(), crc) {
 			return errChecksum
 		}
-- 
2.43.0


From dfa4f88821cbb9c9ba45c05f184a9661107ac912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 32/41] fix: reject a header that is said to go on after the
 end of the archive

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 0f33878..b0f5265 100644
--- a/reader.go
+++ b/reader.go
@@ -484,6 +484,11 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		return nil
 	}
 
+	// All of the header has to be there
+	if z.end > size || start.Size > uint64(size-z.end) { //nolint:gosec
+		return fmt.Errorf("sevenzip: error reading header: %w", io.ErrUnexpectedEOF)
+	}
+
 	// Bound bufio.Reader otherwise it can read trailing garbage which screws up the CRC check
 	br := bufio.NewReader(io.NewSectionReader(tra, z.end, int64(start.Size))) //nolint:gosec
 
-- 
2.43.0


From 573eb036052cadb1ba9197172eb91a7059ed9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 33/41] fix: read archives with empty volumes

A volume without data between others ended every read that crossed it.
---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index b0f5265..481a757 100644
--- a/reader.go
+++ b/reader.go
@@ -265,7 +265,10 @@ func openReader(fs afero.Fs, name string) (io.ReaderAt, int64, []afero.File, err
 				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", errors.Join(errs...))
 			}
 
-			sr = append(sr, io.NewSectionReader(f, 0, info.Size()))
+			// Empty volumes contribute nothing and end reads that cross them
+			if n := info.Size(); n > 0 {
+				sr = append(sr, io.NewSectionReader(f, 0, n))
+			}
 		}
 
 		mr := readerutil.NewMultiReaderAt(sr...)
-- 
2.43.0


From 0611afe596c9485077f16baf80843de5637109a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:39 +0000
Subject: [PATCH 34/41] fix: report truncated PPMd streams

The decoder goes on without input for a while, returning garbage, and can
even divide by zero.
---
 internal/ppmd/reader.go | 51 +++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/internal/ppmd/reader.go b/internal/ppmd/reader.go
index 22dabd7..17c5814 100644
--- a/internal/ppmd/reader.go
+++ b/internal/ppmd/reader.go
@@ -17,8 +17,24 @@ var (
 )
 
 type readCloser struct {
-	c io.Closer
-	r io.Reader
+	c  io.Closer
+	r  io.Reader
+	in *input
+}
+
+// input remembers that there was no more to read, as the decoder may go on
+// regardless.
+type input struct {
+	r   io.Reader
+	err error
+}
+
+func (in *input) Read(p []byte) (n int, err error) {
+	if n, err = io.ReadFull(in.r, p); n < len(p) {
+		in.err = err
+	}
+
+	return n, err //nolint:wrapcheck
 }
 
 func (rc *readCloser) Close() error {
@@ -40,12 +56,26 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
-	n, err := rc.r.Read(p)
-	if err != nil && !errors.Is(err, io.EOF) {
-		err = fmt.Errorf("ppmd: error reading: %w", err)
+	for n := range p {
+		_, err := rc.r.Read(p[n : n+1])
+
+		// Whatever was decoded without input is wrong
+		if rc.in.err != nil {
+			if err = rc.in.err; errors.Is(err, io.EOF) {
+				err = io.ErrUnexpectedEOF
+			}
+		}
+
+		if err != nil {
+			if !errors.Is(err, io.EOF) {
+				err = fmt.Errorf("ppmd: error reading: %w", err)
+			}
+
+			return n, err
+		}
 	}
 
-	return n, err
+	return len(p), nil
 }
 
 // NewReader returns a new PPMD io.ReadCloser.
@@ -61,13 +91,16 @@ func NewReader(p []byte, uncompressedSize uint64, readers []io.ReadCloser) (io.R
 	order := p[0]
 	memory := binary.LittleEndian.Uint32(p[1:])
 
-	pr, err := ppmd.NewH7zReader(readers[0], int(order), int(memory), int(uncompressedSize)) //nolint:gosec
+	in := &input{r: readers[0]}
+
+	pr, err := ppmd.NewH7zReader(in, int(order), int(memory), int(uncompressedSize)) //nolint:gosec
 	if err != nil {
 		return nil, fmt.Errorf("ppmd: error creating reader: %w", err)
 	}
 
 	return &readCloser{
-		c: readers[0],
-		r: &pr,
+		c:  readers[0],
+		r:  &pr,
+		in: in,
 	}, nil
 }
-- 
2.43.0


From 30234afb12a857adf39d23bb25a76edbacfec94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:39 +0000
Subject: [PATCH 35/41] fix: return what was decrypted before a read error

An error in the encrypted data made what had been decrypted before it in the
same read inaccessible, and reading on after it would have lost a block.
---
 internal/aes7z/reader.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/aes7z/reader.go b/internal/aes7z/reader.go
index cbd5cff..7706929 100644
--- a/internal/aes7z/reader.go
+++ b/internal/aes7z/reader.go
@@ -24,6 +24,7 @@ type readCloser struct {
 	cycles   int
 	cbc      cipher.BlockMode
 	buf      bytes.Buffer
+	err      error
 }
 
 func (rc *readCloser) Close() error {
@@ -67,13 +68,15 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	var block [aes.BlockSize]byte
 
-	for rc.buf.Len() < len(p) {
+	for rc.err == nil && rc.buf.Len() < len(p) {
 		if _, err := io.ReadFull(rc.rc, block[:]); err != nil {
 			if errors.Is(err, io.EOF) {
 				break
 			}
 
-			return 0, fmt.Errorf("aes7z: error reading block: %w", err)
+			rc.err = fmt.Errorf("aes7z: error reading block: %w", err)
+
+			break
 		}
 
 		rc.cbc.CryptBlocks(block[:], block[:])
@@ -81,6 +84,11 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		_, _ = rc.buf.Write(block[:])
 	}
 
+	// Return what was decrypted before the error first
+	if rc.err != nil && rc.buf.Len() == 0 {
+		return 0, rc.err
+	}
+
 	n, err := rc.buf.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("aes7z: error reading: %w", err)
-- 
2.43.0


From 82164f1a90b1239b3be048736e8d2e72fa6e4a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 36/41] fix: reject packed streams beyond what can be addressed

Positions and sizes that do not fit into an int64 made io.SectionReader
panic when the file was read.
---
 types.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/types.go b/types.go
index 0d9d054..7b30561 100644
--- a/types.go
+++ b/types.go
@@ -261,6 +261,17 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 		return nil, errUnexpectedID
 	}
 
+	// All of the packed streams have to be somewhere that can be read
+	end := p.position
+
+	for _, size := range p.size {
+		if end > math.MaxInt64 || size > math.MaxInt64-end {
+			return nil, errInvalidSize
+		}
+
+		end += size
+	}
+
 	return p, nil
 }
 
-- 
2.43.0


From 69e9ed1b26be09944dd7ba083a626d1d617a9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 37/41] fix: do not return bytes that bzip2 decoded from
 missing input

The decoder carries on after its input failed, so that a block decoded
from nothing, or with a gap, was returned together with the error, and the
error could be replaced by a later one.
---
 internal/bzip2/reader.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/internal/bzip2/reader.go b/internal/bzip2/reader.go
index 3e82498..a1ed7b6 100644
--- a/internal/bzip2/reader.go
+++ b/internal/bzip2/reader.go
@@ -2,10 +2,13 @@
 package bzip2
 
 import (
+	"bufio"
 	"compress/bzip2"
 	"errors"
 	"fmt"
 	"io"
+
+	"github.com/bodgit/sevenzip/internal/util"
 )
 
 type readCloser struct {
@@ -39,20 +42,45 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	n, err := rc.r.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
-		err = fmt.Errorf("bzip2: error reading: %w", err)
+		// Whatever comes with an error was decoded from missing input.
+		return 0, fmt.Errorf("bzip2: error reading: %w", err)
 	}
 
 	return n, err
 }
 
+// stickyReader keeps failing once it failed as the decoder carries on after an
+// error.
+type stickyReader struct {
+	util.Reader
+	err error
+}
+
+func (sr *stickyReader) ReadByte() (byte, error) {
+	if sr.err != nil {
+		return 0, sr.err
+	}
+
+	var b byte
+
+	b, sr.err = sr.Reader.ReadByte()
+
+	return b, sr.err
+}
+
 // NewReader returns a new bzip2 io.ReadCloser.
 func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
 	if len(readers) != 1 {
 		return nil, errNeedOneReader
 	}
 
+	r, ok := readers[0].(util.Reader)
+	if !ok {
+		r = bufio.NewReader(readers[0])
+	}
+
 	return &readCloser{
 		c: readers[0],
-		r: bzip2.NewReader(readers[0]),
+		r: bzip2.NewReader(&stickyReader{Reader: r}),
 	}, nil
 }
-- 
2.43.0


From c5f1076a05c7b441f6dfe0e6614c0b6a6cd3058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 38/41] fix: zstd streams with an invalid block returned data
 of streams decoded before

The decoder that decodes ahead hands out the recycled buffer of the block
together with the error, which still holds what was decoded into it for
another stream, possibly of another archive. Decode in the caller's
goroutine, where the buffer is only handed out once it was filled.
---
 internal/zstd/reader.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index 6a70250..d140747 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"runtime"
 	"sync"
 
 	"github.com/klauspost/compress/zstd"
@@ -29,8 +28,7 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
-	// The decoder reads ahead in another goroutine, wait for that to end
-	// before closing what it reads from
+	// Let go of what it reads from before closing that
 	_ = rc.r.Reset(nil)
 
 	if err := rc.c.Close(); err != nil {
@@ -70,11 +68,12 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 			return nil, fmt.Errorf("zstd: error resetting: %w", err)
 		}
 	} else {
-		if r, err = zstd.NewReader(readers[0]); err != nil {
+		// Decoding ahead in other goroutines passes on whatever is left in
+		// the recycled buffers when there is an invalid block. Without
+		// them there is nothing to stop once a decoder is dropped either
+		if r, err = zstd.NewReader(readers[0], zstd.WithDecoderConcurrency(1)); err != nil {
 			return nil, fmt.Errorf("zstd: error creating reader: %w", err)
 		}
-
-		runtime.SetFinalizer(r, (*zstd.Decoder).Close)
 	}
 
 	return &readCloser{
-- 
2.43.0


From 6e6f985bed003c407d8598e1c754cbf2192037ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 39/41] fix: ARM filter lost four bytes of its position where
 that wraps to zero

---
 internal/bra/arm.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/bra/arm.go b/internal/bra/arm.go
index de8676f..e9e1ef2 100644
--- a/internal/bra/arm.go
+++ b/internal/bra/arm.go
@@ -18,10 +18,6 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 		return 0
 	}
 
-	if c.ip == 0 {
-		c.ip = armAlignment
-	}
-
 	var i int
 
 	for i = 0; i < len(b) & ^(armAlignment-1); i += armAlignment {
@@ -31,9 +27,9 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 
 		if b[i+3] == 0xeb {
 			if encoding {
-				v += c.ip >> 2
+				v += (c.ip + armAlignment) >> 2
 			} else {
-				v -= c.ip >> 2
+				v -= (c.ip + armAlignment) >> 2
 			}
 
 			v &= 0x00ffffff
-- 
2.43.0


From 3494175b1f2930ae24781b08f4bd743565c264e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 40/41] fix: a file whose closing failed closed its reader
 again, or one that was kept

---
 reader.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/reader.go b/reader.go
index 481a757..d13336e 100644
--- a/reader.go
+++ b/reader.go
@@ -149,24 +149,26 @@ func (fr *fileReader) Close() error {
 		return nil
 	}
 
-	offset, err := fr.rc.Seek(0, io.SeekCurrent)
+	// Whatever happens, the reader is no longer ours afterwards
+	rc := fr.rc
+	fr.rc = nil
+
+	offset, err := rc.Seek(0, io.SeekCurrent)
 	if err != nil {
 		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
 	}
 
-	if fr.err != nil || offset == fr.rc.Size() { // Failed or EOF reached
-		if err := fr.rc.Close(); err != nil {
+	if fr.err != nil || offset == rc.Size() { // Failed or EOF reached
+		if err := rc.Close(); err != nil {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
 	} else {
 		f := fr.f
-		if _, err := f.zip.pool[f.folder].Put(offset, fr.rc); err != nil {
+		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {
 			return fmt.Errorf("sevenzip: error adding to pool: %w", err)
 		}
 	}
 
-	fr.rc = nil
-
 	return nil
 }
 
-- 
2.43.0


From 3a09564aae97b7c2ba9becf08d2b1ea23364cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 41/41] fix: a truncated LZMA stream below another coder
 decoded to made up data without an error

---
 internal/lzma/reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index b8d277c..cd55340 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -95,7 +95,8 @@ func (m *multiByteReader) ReadByte() (b byte, err error) {
 		b, err = m.br.ReadByte()
 	}
 
-	if err != nil {
+	// The decoder has to recognise the end of the data
+	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("lzma: error multi byte reading: %w", err)
 	}
 
@@ -104,7 +105,7 @@ func (m *multiByteReader) ReadByte() (b byte, err error) {
 
 func (m *multiByteReader) Read(p []byte) (int, error) {
 	n, err := m.mr.Read(p)
-	if err != nil {
+	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("lzma: error multi reading: %w", err)
 	}
 
-- 
2.43.0


From ae8b700fa270d4451885a9bd3d42ebe10f868ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:38 +0000
Subject: [PATCH 01/51] verif: dial seam for in-memory connections (build tag
 verif)

---
 pkg/gotitnet/connection.go |  2 +-
 pkg/gotitnet/dial.go       | 12 ++++++++++++
 pkg/gotitnet/dial_verif.go | 19 +++++++++++++++++++
 3 files changed, 32 insertions(+), 1 deletion(-)
 create mode 100644 pkg/gotitnet/dial.go
 create mode 100644 pkg/gotitnet/dial_verif.go

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 2c31b3c..e5e2c8e 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -25,7 +25,7 @@ type TimeoutConn struct {
 }
 
 func NewTimeoutConn(network, address string, timeout time.Duration) (*TimeoutConn, error) {
-	conn, err := net.DialTimeout(network, address, DialTimeout)
+	conn, err := dialTimeout(network, address, DialTimeout)
 	if err != nil {
 		return nil, fmt.Errorf("timedConn (%s): %w", address, err)
 	}
diff --git a/pkg/gotitnet/dial.go b/pkg/gotitnet/dial.go
new file mode 100644
index 0000000..7513855
--- /dev/null
+++ b/pkg/gotitnet/dial.go
@@ -0,0 +1,12 @@
+//go:build !verif
+
+package gotitnet
+
+import (
+	"net"
+	"time"
+)
+
+func dialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
+	return net.DialTimeout(network, address, timeout)
+}
diff --git a/pkg/gotitnet/dial_verif.go b/pkg/gotitnet/dial_verif.go
new file mode 100644
index 0000000..86ca122
--- /dev/null
+++ b/pkg/gotitnet/dial_verif.go
@@ -0,0 +1,19 @@
+//go:build verif
+
+package gotitnet
+
+import (
+	"net"
+	"time"
+)
+
+// DialHook, when set, replaces net.DialTimeout. It exists only in builds with
+// the verif tag.
+var DialHook func(network, address string, timeout time.Duration) (net.Conn, error)
+
+func dialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
+	if DialHook != nil {
+		return DialHook(network, address, timeout)
+	}
+	return net.DialTimeout(network, address, timeout)
+}
-- 
2.43.0


From b3b12bab5ca200e097bbf21bd385cc9cfaddfe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 02/51] fix: bencode numbers: refuse overflow and missing
 digits, accept negative integers

A length such as 9999999999999999999 wrapped to a negative value and crashed
the parser; 19 digit integers lost their last digit; i-5e was refused.
---
 pkg/bencode/parse.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index f6a6ec3..a12ef64 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -2,6 +2,7 @@ package bencode
 
 import (
 	"errors"
+	"math"
 	"unsafe"
 )
 
@@ -9,6 +10,7 @@ var (
 	ErrElementEnd   = errors.New("element not ended with 'e'")
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
+	ErrNumber       = errors.New("number missing or out of range")
 )
 
 func Parse(data []byte) (Bencode, error) {
@@ -89,15 +91,21 @@ func (s scanner) isDigit() bool {
 	return s.peek() >= '0' && s.peek() <= '9'
 }
 
-func (s *scanner) number() (int, error) {
-	n := 0
+// number reads decimal digits making up a number not bigger than max.
+func (s *scanner) number(max uint64) (uint64, error) {
+	if !s.isDigit() {
+		return 0, ErrNumber
+	}
+
+	n := uint64(0)
 	for s.isDigit() {
-		d := int(s.peek() - '0')
-		n += d
-		n *= 10
+		d := uint64(s.peek() - '0')
+		if n > (max-d)/10 {
+			return 0, ErrNumber
+		}
+		n = n*10 + d
 		s.advance()
 	}
-	n /= 10
 
 	s.position()
 	return n, nil
@@ -107,7 +115,12 @@ func (s *scanner) readInt() (IntElement, error) {
 	s.advance()
 	s.position()
 
-	n, err := s.number()
+	max := uint64(math.MaxInt)
+	negative := s.match('-')
+	if negative {
+		max++
+	}
+	n, err := s.number(max)
 	if err != nil {
 		return 0, err
 	}
@@ -115,11 +128,14 @@ func (s *scanner) readInt() (IntElement, error) {
 	if !s.match('e') {
 		return 0, ErrElementEnd
 	}
+	if negative {
+		return -IntElement(n), nil
+	}
 	return IntElement(n), nil
 }
 
 func (s *scanner) readString() (string, error) {
-	length, err := s.number()
+	length, err := s.number(math.MaxInt)
 	if err != nil {
 		return "", err
 	}
@@ -127,11 +143,11 @@ func (s *scanner) readString() (string, error) {
 	if !s.match(':') {
 		return "", ErrColonMissing
 	}
-	s.current += length
 	// we need to check if we are trying to read beyond string length.
-	if s.current > len(s.bencode) {
+	if length > uint64(len(s.bencode)-s.current) {
 		return "", ErrStringLength
 	}
+	s.current += int(length)
 
 	strElement := b2s(s.read())
 	s.position()
-- 
2.43.0


From 0996b1e1479736cb4233726977a180ca41192ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 03/51] fix: bencode: limit nesting instead of overflowing the
 stack

A few megabytes of 'l' overflowed the goroutine stack and killed the process.
---
 pkg/bencode/parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index a12ef64..c380aca 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -11,8 +11,13 @@ var (
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
 	ErrNumber       = errors.New("number missing or out of range")
+	ErrNesting      = errors.New("elements nested too deep")
 )
 
+// maxNesting limits how deep lists and dictionaries can be nested. Parsing is
+// recursive, without the limit data from the network could exhaust the stack.
+const maxNesting = 1024
+
 func Parse(data []byte) (Bencode, error) {
 	sc := newScanner(data)
 	return sc.Parse()
@@ -21,6 +26,7 @@ func Parse(data []byte) (Bencode, error) {
 type scanner struct {
 	start   int
 	current int
+	nesting int
 	bencode []byte
 }
 
@@ -40,6 +46,12 @@ func (s *scanner) Parse() (Bencode, error) {
 }
 
 func (s *scanner) Next() (Bencode, error) {
+	s.nesting++
+	defer func() { s.nesting-- }()
+	if s.nesting > maxNesting {
+		return nil, ErrNesting
+	}
+
 	switch s.peek() {
 	case 'l':
 		return s.readList()
-- 
2.43.0


From f900926681355f5658017062e1872a8d969d3b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 04/51] fix: bencode: encode and print dictionaries in key
 order

Keys were written in random map order, which is not valid bencode and made the
output different on every call.
---
 pkg/bencode/elements.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/bencode/elements.go b/pkg/bencode/elements.go
index d271592..b6a8913 100644
--- a/pkg/bencode/elements.go
+++ b/pkg/bencode/elements.go
@@ -1,6 +1,7 @@
 package bencode
 
 import (
+	"sort"
 	"strconv"
 )
 
@@ -72,7 +73,8 @@ func (bencode DictElement) String() string {
 
 func (bencode DictElement) Encode() string {
 	encoded := "d"
-	for k, v := range bencode.value {
+	for _, k := range bencode.keys() {
+		v := bencode.value[k]
 		if v == nil {
 			continue
 		}
@@ -83,6 +85,16 @@ func (bencode DictElement) Encode() string {
 	return encoded + "e"
 }
 
+// keys returns dictionary keys in bencode (byte) order.
+func (bencode DictElement) keys() []string {
+	keys := make([]string, 0, len(bencode.value))
+	for k := range bencode.value {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func (bencode DictElement) Value(key string) Bencode {
 	return bencode.value[key]
 }
@@ -97,7 +109,8 @@ func prettyPrint(bencode Bencode, tabs string) string {
 		tabs = addTab(tabs)
 		data := "{" + newLine(tabs)
 
-		for k, v := range value.value {
+		for _, k := range value.keys() {
+			v := value.value[k]
 			if v == nil {
 				continue
 			}
-- 
2.43.0


From e3f1cfd203050480be11079e986c1a078d5b7f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 05/51] fix: bencode: return an error when the document is not
 a dictionary

Unmarshal panicked, so a tracker answering 'i1e' crashed the client.
---
 pkg/bencode/tag_parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 412f82b..3c4bf60 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -71,7 +71,11 @@ func processTarget(target interface{}, bencode Bencode) error {
 
 		dict, ok := bencode.(*DictElement)
 		if !ok {
-			panic("bencode internal: bencode element not *DictElement")
+			return &TypeError{
+				ElementName: ftype.Name,
+				FieldType:   val.Type().String(),
+				BencodeType: reflect.TypeOf(bencode).String(),
+			}
 		}
 		value := dict.Value(tagName)
 		if value == nil && !optional {
-- 
2.43.0


From 82b36516613dcfe88c39cccaab28fc88c75afefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:17 +0000
Subject: [PATCH 06/51] fix: create torrent files at their full path

Only the first path element was used, so files in subdirectories were created
with the directory's name and overwrote each other.
---
 pkg/torrent/torrent.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 6d13ff5..911d0d7 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -148,13 +148,19 @@ func (t *Torrent) initDownloadDir(root string) error {
 		}
 
 		for _, tf := range t.TorrentFiles {
-			filePaths = append(filePaths, filepath.Join(path, tf.Path[0]))
+			filePaths = append(filePaths, filepath.Join(path, tf.FilePath()))
 		}
 	} else {
 		filePaths = append(filePaths, path)
 	}
 
 	for _, path := range filePaths {
+		if t.IsDirectory {
+			if err := os.MkdirAll(filepath.Dir(path), os.ModePerm); err != nil {
+				return err
+			}
+		}
+
 		f, err := os.Create(path)
 		if err != nil {
 			return err
@@ -228,7 +234,7 @@ func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
 		}
 
 		t.logger.Debug("Writing to file",
-			zap.String("file", t.TorrentFiles[fileIdx].Path[0]),
+			zap.String("file", t.TorrentFiles[fileIdx].FilePath()),
 			zap.Int("position", piecePoss),
 			zap.Int("bytes", toWrite))
 
-- 
2.43.0


From 918f5bc0aae4edf92cb7393141f02eea04cbb168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:20 +0000
Subject: [PATCH 07/51] fix: refuse torrents whose name or paths leave the
 download directory

Names like ../../x were joined as they are and created or truncated files
anywhere; a file without path crashed the client.
---
 pkg/torrent/torrent.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 911d0d7..9d59960 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/sha1"
 	"errors"
+	"fmt"
 	"math"
 	"os"
 	"path/filepath"
@@ -140,15 +141,22 @@ func (t *Torrent) Done() bool {
 }
 
 func (t *Torrent) initDownloadDir(root string) error {
-	path := filepath.Join(root, t.Name)
+	path, err := safeJoin(root, t.Name)
+	if err != nil {
+		return err
+	}
 	var filePaths []string
 	if t.IsDirectory {
-		if err := os.Mkdir(path, os.ModePerm); err != nil && os.IsNotExist(err) {
-			return err
+		for _, tf := range t.TorrentFiles {
+			filePath, err := safeJoin(path, tf.Path...)
+			if err != nil {
+				return err
+			}
+			filePaths = append(filePaths, filePath)
 		}
 
-		for _, tf := range t.TorrentFiles {
-			filePaths = append(filePaths, filepath.Join(path, tf.FilePath()))
+		if err := os.Mkdir(path, os.ModePerm); err != nil && os.IsNotExist(err) {
+			return err
 		}
 	} else {
 		filePaths = append(filePaths, path)
@@ -171,6 +179,20 @@ func (t *Torrent) initDownloadDir(root string) error {
 	return nil
 }
 
+// safeJoin joins path elements from the torrent file to dir. Every element has
+// to be a plain file name, so the result can not be outside of dir.
+func safeJoin(dir string, elements ...string) (string, error) {
+	if len(elements) == 0 {
+		return "", errors.New("torrent file without path")
+	}
+	for _, el := range elements {
+		if el == "." || !filepath.IsLocal(el) || filepath.Base(el) != el {
+			return "", fmt.Errorf("unsafe path in torrent: %q", el)
+		}
+	}
+	return filepath.Join(dir, filepath.Join(elements...)), nil
+}
+
 func (t *Torrent) CheckPiece(data []byte, index int) bool {
 	hasher := sha1.New()
 	hasher.Write(data)
-- 
2.43.0


From f2b3f33eb1ca82c635ee63b819adbc5d1f54b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:52 +0000
Subject: [PATCH 08/51] fix: refuse torrents that declare the same file twice

Both entries opened the same file and overwrote each other's content.
---
 pkg/torrent/torrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 9d59960..505c033 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -147,11 +147,15 @@ func (t *Torrent) initDownloadDir(root string) error {
 	}
 	var filePaths []string
 	if t.IsDirectory {
+		declared := util.NewStringSet()
 		for _, tf := range t.TorrentFiles {
 			filePath, err := safeJoin(path, tf.Path...)
 			if err != nil {
 				return err
 			}
+			if !declared.Add(filePath) {
+				return fmt.Errorf("file declared twice in torrent: %q", tf.FilePath())
+			}
 			filePaths = append(filePaths, filePath)
 		}
 
-- 
2.43.0


From afa58883d9a32969f016361800cc2ca23cff21e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:55 +0000
Subject: [PATCH 09/51] fix: refuse torrents with inconsistent sizes

A zero piece length or a hash list not matching the length was accepted and
crashed the client or could never complete.
---
 pkg/torrent/torrent.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 505c033..f406c5a 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -66,6 +66,9 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 	t.CreationDate = metainfo.CreationDate
 	t.Comment = metainfo.Comment
 	t.PieceLength = int(metainfo.Info.PieceLength)
+	if t.PieceLength <= 0 {
+		return nil, errors.New("invalid piece length")
+	}
 	pieces, err := NewPieces([]byte(metainfo.Info.Pieces))
 	if err != nil {
 		return nil, err
@@ -95,12 +98,24 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 
 		var completeLength = 0
 		for _, file := range files {
+			if file.Length < 0 || file.Length > math.MaxInt-completeLength {
+				return nil, errors.New("invalid file length")
+			}
 			completeLength += file.Length
 		}
 		t.TorrentFiles = metainfo.Info.Files
 		t.Length = completeLength
 	}
-	t.PiecesNum = int(math.Ceil(float64(t.Length) / float64(t.PieceLength)))
+	if t.Length < 0 {
+		return nil, errors.New("invalid torrent length")
+	}
+	t.PiecesNum = t.Length / t.PieceLength
+	if t.Length%t.PieceLength != 0 {
+		t.PiecesNum++
+	}
+	if len(t.Pieces) != t.PiecesNum {
+		return nil, errors.New("number of piece hashes does not match torrent length")
+	}
 	t.requested = bitset.New(uint(t.PiecesNum))
 	t.downloaded = bitset.New(uint(t.PiecesNum))
 
-- 
2.43.0


From 23d2116c7261583d88aa2fc15823f81215d7b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:57 +0000
Subject: [PATCH 10/51] fix: piece index outside of the torrent fails the hash
 check

A peer sending such an index crashed the client.
---
 pkg/torrent/torrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index f406c5a..e1b8b78 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -213,6 +213,10 @@ func safeJoin(dir string, elements ...string) (string, error) {
 }
 
 func (t *Torrent) CheckPiece(data []byte, index int) bool {
+	if index < 0 || index >= len(t.Pieces) {
+		return false
+	}
+
 	hasher := sha1.New()
 	hasher.Write(data)
 	hash := hasher.Sum(nil)
-- 
2.43.0


From 362c45203272313faf1c4bfbfc7e088a2221f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 11/51] fix: do not crash on peer messages shorter than their
 type needs

---
 pkg/util/peer_message.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 4cdf1de..2bc10a0 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -24,8 +24,20 @@ const (
 	// KeepaliveMessageType has only length without type.
 	// This is fake type which is never actually used.
 	KeepaliveMessageType MessageType = 99
+
+	// InvalidMessageType marks message too short for its type. Like
+	// keepalive type it is never sent.
+	InvalidMessageType MessageType = 100
 )
 
+// minPayload is the payload size of message types with mandatory fields.
+var minPayload = map[MessageType]int{
+	HaveMessageType:    4,
+	RequestMessageType: 12,
+	PieceMessageType:   8,
+	CancelMessageType:  12,
+}
+
 type PeerMessage struct {
 	len     uint32
 	Type    MessageType
@@ -61,6 +73,9 @@ func NewPeerMessage(data []byte) *PeerMessage {
 		payload: data[1:],
 	}
 	data = msg.payload
+	if len(data) < minPayload[msg.Type] {
+		msg.Type = InvalidMessageType
+	}
 
 	// set additional message data for these message types
 	switch msg.Type {
-- 
2.43.0


From 5c320cd7a8f890ae8bae413d8061dcedb7565a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:26 +0000
Subject: [PATCH 12/51] fix: write index, offset and length of requests to
 their own places

All three were written over each other in the first four bytes of the payload.
---
 pkg/util/peer_message.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 2bc10a0..097253f 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -202,8 +202,8 @@ func createHaveMessage(index uint32) *PeerMessage {
 func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
 	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	binary.BigEndian.PutUint32(payload[8:], blockLength)
 
 	msg := &PeerMessage{
 		len:         13,
@@ -220,8 +220,8 @@ func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 func CreatePieceMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
 	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	binary.BigEndian.PutUint32(payload[8:], blockLength)
 
 	msg := PeerMessage{
 		len:         13,
-- 
2.43.0


From 5d2bd2369e9d4b14a219e7dcc7ab45631d5b914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:57 +0000
Subject: [PATCH 13/51] fix: limit the size of peer messages

The declared size was allocated unchecked, so four bytes from a peer made the
client allocate up to 4 GiB.
---
 pkg/gotitnet/connection.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index e5e2c8e..8f06fa8 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -16,6 +16,10 @@ const (
 	DialTimeout    = time.Second * 2
 )
 
+// maxPeerMessageSize is well above a piece message with the biggest block and
+// a bitfield of millions of pieces.
+const maxPeerMessageSize = 1 << 20
+
 type TimeoutConn struct {
 	// Underlying TCP/UDP connection.
 	c net.Conn
@@ -47,6 +51,9 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if size > maxPeerMessageSize {
+		return nil, fmt.Errorf("peer message too big: %d bytes", size)
+	}
 
 	return c.readExactly(size)
 }
-- 
2.43.0


From f3008b130a1cfab72868cee502bad2f339bc3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:00 +0000
Subject: [PATCH 14/51] fix: tell a message cut off by the timeout from an idle
 connection

After a partly read message the connection was read on from the middle of it
and message data was taken for the size of the next message.
---
 pkg/gotitnet/connection.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 8f06fa8..58ad024 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -2,9 +2,11 @@ package gotitnet
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"net"
+	"os"
 	"time"
 
 	"github.com/anivanovic/gotit/pkg/util"
@@ -55,7 +57,11 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 		return nil, fmt.Errorf("peer message too big: %d bytes", size)
 	}
 
-	return c.readExactly(size)
+	data, err := c.readExactly(size)
+	if err != nil {
+		return nil, incompleteError(err)
+	}
+	return data, nil
 }
 
 // readPeerMessageSize returns next peer message size by reading first 4
@@ -116,12 +122,28 @@ func (c *TimeoutConn) Close() error {
 
 func (c *TimeoutConn) readExactly(len int) ([]byte, error) {
 	buf := make([]byte, len)
-	if _, err := io.ReadFull(c.c, buf); err != nil {
+	if n, err := io.ReadFull(c.c, buf); err != nil {
+		if n > 0 {
+			err = incompleteError(err)
+		}
 		return nil, err
 	}
 	return buf, nil
 }
 
+// incompleteError is returned when reading fails in the middle of a message.
+// Start of the next message can not be found any more, so it is never reported
+// as timeout after which reading could go on.
+func incompleteError(err error) error {
+	return fmt.Errorf("%w: %v", io.ErrUnexpectedEOF, err)
+}
+
+// IsTimeout reports if err is a timeout without any data being read. Reading
+// can be tried again.
+func IsTimeout(err error) bool {
+	return errors.Is(err, os.ErrDeadlineExceeded)
+}
+
 func (c *TimeoutConn) setReadDeadline() error {
 	return c.c.SetReadDeadline(time.Now().Add(c.timeout))
 }
-- 
2.43.0


From 938260b391c779240eb2294fbf67dfc3ccd03f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 15/51] fix: remember that interest was sent to the peer

The flag was never set, so no piece was ever requested.
---
 pkg/peer/peer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index fa27faf..89dfed1 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -386,8 +386,12 @@ func (p *Peer) SendUnchoke() error {
 }
 
 func (p *Peer) SendInterested() error {
-	_, err := p.sendMessage(util.CreateInterestedMessage())
-	return err
+	if _, err := p.sendMessage(util.CreateInterestedMessage()); err != nil {
+		return err
+	}
+
+	p.ClientStatus.Interested = true
+	return nil
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
-- 
2.43.0


From 0146e2ada3410d3d150b37506185f9f0e1bc0786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:30 +0000
Subject: [PATCH 16/51] fix: request the next block when the requested one
 arrives

Only one block was ever requested from a peer.
---
 pkg/peer/peer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 89dfed1..d03e0f4 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -277,10 +277,21 @@ func (p *Peer) Run(ctx context.Context) {
 		}
 		b.Reset()
 
-		p.handlePeerMessage(util.NewPeerMessage(response))
+		message := util.NewPeerMessage(response)
+		p.handlePeerMessage(message)
+		if sentPieceMsg && isResponse(message, requestMsg) {
+			sentPieceMsg = false
+		}
 	}
 }
 
+// isResponse checks if message carries the block asked for with request.
+func isResponse(message, request *util.PeerMessage) bool {
+	return message.Type == util.PieceMessageType &&
+		message.Index() == request.Index() &&
+		message.Offset() == request.Offset()
+}
+
 func (p *Peer) nextRequestMessage() *util.PeerMessage {
 	if p.blockIdx >= p.blockNum {
 		// when finished with piece download check if we have failed
-- 
2.43.0


From f0abeb3410bccb04304d6dd0bde44828883d6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:33 +0000
Subject: [PATCH 17/51] fix: read piece 0 from the first bit of the bitfield
 message

Bits were mirrored in groups of 64, so pieces the peer has were never requested
and pieces it does not have were.
---
 pkg/peer/peer.go         | 12 +++++++++++-
 pkg/util/peer_message.go | 17 +++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index d03e0f4..3176edb 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -343,7 +343,7 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 	switch message.Type {
 	case util.BitfieldMessageType:
 		p.logger.Debug("Peer sent bitfield message", zap.Int("peerId", p.Id))
-		p.Bitset = message.Bitfield()
+		p.setBitfield(message)
 	case util.HaveMessageType:
 		p.logger.Debug("Peer sent have message", zap.Int("peerId", p.Id))
 		p.Bitset.Set(uint(message.Index()))
@@ -375,6 +375,16 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 	}
 }
 
+// setBitfield remembers which pieces peer has.
+func (p *Peer) setBitfield(message *util.PeerMessage) {
+	if p.torrent == nil {
+		// number of pieces not known, keep bits as they are
+		p.Bitset = message.Bitfield()
+		return
+	}
+	p.Bitset = message.PieceSet(uint(p.torrent.PiecesNum))
+}
+
 func (p *Peer) sendMessage(msg *util.PeerMessage) (int, error) {
 	return p.conn.WriteMsg(msg)
 }
diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 097253f..9497349 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -137,6 +137,23 @@ func (m PeerMessage) Bitfield() *bitset.BitSet {
 	return createBitset(m.payload)
 }
 
+// PieceSet returns set of pieces from bitfield message for torrent with given
+// number of pieces. The highest bit of the first byte is piece 0, spare bits at
+// the end are ignored.
+func (m PeerMessage) PieceSet(piecesNum uint) *bitset.BitSet {
+	if m.Type != BitfieldMessageType {
+		return nil
+	}
+
+	set := bitset.New(piecesNum)
+	for i := uint(0); i < piecesNum && i/8 < uint(len(m.payload)); i++ {
+		if m.payload[i/8]&(0x80>>(i%8)) != 0 {
+			set.Set(i)
+		}
+	}
+	return set
+}
+
 func createBitset(payload []byte) *bitset.BitSet {
 	if rem := len(payload) % 8; rem != 0 {
 		payload = append(payload, make([]byte, 8-rem)...)
-- 
2.43.0


From c1a0cc4694aa9e378d1b945692a6e6289415ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:35 +0000
Subject: [PATCH 18/51] fix: ignore have messages for pieces outside of the
 torrent

One message made the client allocate up to 512 MiB.
---
 pkg/peer/peer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 3176edb..6b63822 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -346,7 +346,10 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 		p.setBitfield(message)
 	case util.HaveMessageType:
 		p.logger.Debug("Peer sent have message", zap.Int("peerId", p.Id))
-		p.Bitset.Set(uint(message.Index()))
+		// setting bit outside of the torrent would grow the set to any size
+		if uint(message.Index()) < p.Bitset.Len() {
+			p.Bitset.Set(uint(message.Index()))
+		}
 	case util.InterestedMessageType:
 		p.logger.Debug("Peer sent interested message", zap.Int("peerId", p.Id))
 		p.PeerStatus.Interested = true
-- 
2.43.0


From 06f8951dfd121abe6d200cd84e053ce9e36f7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:59 +0000
Subject: [PATCH 19/51] fix: take the first piece of a peer from the pieces
 source too

Every peer started with piece 0, whether it has it or another peer downloads it.
---
 pkg/peer/peer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 6b63822..eb4b1b9 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -293,7 +293,8 @@ func isResponse(message, request *util.PeerMessage) bool {
 }
 
 func (p *Peer) nextRequestMessage() *util.PeerMessage {
-	if p.blockIdx >= p.blockNum {
+	// no block of the piece is requested before piece is taken from the source
+	if p.blockIdx == 0 || p.blockIdx >= p.blockNum {
 		// when finished with piece download check if we have failed
 		// piece requests
 		if req := p.piecesQueue.FailedPieceMessage(); req != nil {
-- 
2.43.0


From 58ad29b6ee6133f090c925a95d3e54fe1e4e0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 20/51] fix: request and complete pieces by their actual size

Pieces that are not a multiple of the block length were requested with wrong
lengths, and the shorter last piece was never marked as downloaded.
---
 pkg/peer/peer.go       | 34 +++++++++++++++++++++++++++-------
 pkg/torrent/torrent.go | 11 ++++++++++-
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index eb4b1b9..26f729c 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -48,9 +48,10 @@ type Peer struct {
 
 	logger *zap.Logger
 
-	blockIdx uint
-	pieceIdx uint
-	blockNum uint
+	blockIdx  uint
+	pieceIdx  uint
+	pieceSize uint
+	blockNum  uint
 
 	writeCh chan<- *util.PeerMessage
 }
@@ -77,12 +78,13 @@ func isHandshakeValid(handshake, hash, peerId []byte) bool {
 
 func (p *Peer) createPieceMessage() *util.PeerMessage {
 	beginOffset := p.blockIdx * torrent.BlockLength
-	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(torrent.BlockLength))
+	length := p.blockLength(p.blockIdx)
+	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(length))
 
 	p.logger.Debug("created piece request",
 		zap.Uint("piece", p.pieceIdx),
 		zap.Uint("offset", beginOffset),
-		zap.Uint("length", torrent.BlockLength),
+		zap.Uint("length", length),
 	)
 
 	p.blockIdx++
@@ -307,13 +309,31 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 			return nil
 		}
 
-		p.blockIdx = 0
-		p.pieceIdx = indx
+		p.startPiece(indx)
 	}
 
 	return p.createPieceMessage()
 }
 
+func (p *Peer) startPiece(indx uint) {
+	p.blockIdx = 0
+	p.pieceIdx = indx
+	if p.torrent != nil {
+		p.pieceSize = uint(p.torrent.PieceSize(int(indx)))
+		p.blockNum = (p.pieceSize + torrent.BlockLength - 1) / torrent.BlockLength
+	}
+}
+
+// blockLength returns length of the block in current piece. Last block can be
+// shorter than the others.
+func (p *Peer) blockLength(block uint) uint {
+	offset := block * torrent.BlockLength
+	if p.pieceSize > offset && p.pieceSize-offset < torrent.BlockLength {
+		return p.pieceSize - offset
+	}
+	return torrent.BlockLength
+}
+
 func (p *Peer) Close() error {
 	return p.conn.Close()
 }
diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index e1b8b78..17fface 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -237,7 +237,7 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 			continue
 		}
 
-		if int(msg.Offset())+len(msg.Data()) == t.PieceLength {
+		if int(msg.Offset())+len(msg.Data()) == t.PieceSize(int(msg.Index())) {
 			t.SetDownloaded(uint(msg.Index()))
 		}
 	}
@@ -295,6 +295,15 @@ func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
 	return nil
 }
 
+// PieceSize returns size of the piece. It is PieceLength for all pieces but the
+// last one, which holds the rest of the torrent.
+func (t *Torrent) PieceSize(index int) int {
+	if rest := t.Length - index*t.PieceLength; rest > 0 && rest < t.PieceLength {
+		return rest
+	}
+	return t.PieceLength
+}
+
 func (t *Torrent) BlockNum() int {
 	return t.numOfBlocks
 }
-- 
2.43.0


From fde1508444c24b2cdfd44b146a6420969fad0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:32 +0000
Subject: [PATCH 21/51] fix: check the hash of the whole piece, not of every
 block

Blocks were compared with the hash of the piece, so no piece bigger than one
block could be downloaded.
---
 pkg/peer/peer.go         | 43 ++++++++++++++++++++++++++++++++++++++++
 pkg/util/peer_message.go | 15 ++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 26f729c..4b9a8a3 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -52,6 +52,8 @@ type Peer struct {
 	pieceIdx  uint
 	pieceSize uint
 	blockNum  uint
+	// received blocks of the current piece, nil when it is finished
+	blocks map[uint][]byte
 
 	writeCh chan<- *util.PeerMessage
 }
@@ -318,6 +320,7 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 func (p *Peer) startPiece(indx uint) {
 	p.blockIdx = 0
 	p.pieceIdx = indx
+	p.blocks = make(map[uint][]byte)
 	if p.torrent != nil {
 		p.pieceSize = uint(p.torrent.PieceSize(int(indx)))
 		p.blockNum = (p.pieceSize + torrent.BlockLength - 1) / torrent.BlockLength
@@ -440,6 +443,19 @@ func (p *Peer) SendInterested() error {
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
+	if uint(message.Index()) != p.pieceIdx {
+		p.logger.Debug("Discarding piece that was not requested",
+			zap.Uint32("index", message.Index()))
+		return
+	}
+
+	// hash is known only for the whole piece
+	if p.blockNum > 1 {
+		if message = p.addBlock(message); message == nil {
+			return
+		}
+	}
+
 	if !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
 			zap.Uint32("index", message.Index()))
@@ -450,6 +466,33 @@ func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
 	p.Bitset.Set(uint(message.Index()))
 }
 
+// addBlock stores block of the current piece. Returns message with the whole
+// piece when all blocks are there.
+func (p *Peer) addBlock(message *util.PeerMessage) *util.PeerMessage {
+	block := uint(message.Offset()) / torrent.BlockLength
+	if p.blocks == nil ||
+		uint(message.Offset())%torrent.BlockLength != 0 ||
+		block >= p.blockNum ||
+		uint(len(message.Data())) != p.blockLength(block) {
+		p.logger.Warn("Discarding block that was not requested",
+			zap.Uint32("index", message.Index()),
+			zap.Uint32("offset", message.Offset()))
+		return nil
+	}
+
+	p.blocks[block] = message.Data()
+	if uint(len(p.blocks)) < p.blockNum {
+		return nil
+	}
+
+	piece := make([]byte, 0, p.pieceSize)
+	for i := uint(0); i < p.blockNum; i++ {
+		piece = append(piece, p.blocks[i]...)
+	}
+	p.blocks = nil
+	return util.CreateBlockMessage(message.Index(), 0, piece)
+}
+
 func createHandshake(hash []byte) []byte {
 	buf := new(bytes.Buffer)
 
diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 9497349..c53baf0 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -251,6 +251,21 @@ func CreatePieceMessage(index, offset, blockLength uint32) *PeerMessage {
 	return &msg
 }
 
+// CreateBlockMessage creates message with piece data.
+func CreateBlockMessage(index, offset uint32, data []byte) *PeerMessage {
+	payload := make([]byte, 8, 8+len(data))
+	binary.BigEndian.PutUint32(payload, index)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+
+	return &PeerMessage{
+		len:     uint32(9 + len(data)),
+		Type:    PieceMessageType,
+		payload: append(payload, data...),
+		index:   index,
+		offset:  offset,
+	}
+}
+
 func writeBigEndian(dest io.Writer, data any) {
 	_ = binary.Write(dest, binary.BigEndian, data)
 }
-- 
2.43.0


From f2de002bfa8c0e52fd91ef25055d7a738ffacbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:09 +0000
Subject: [PATCH 22/51] fix: give unfinished pieces back when a peer fails

---
 pkg/download/manager.go |  3 +-
 pkg/peer/peer.go        | 89 ++++++++++++++++++++++++++++++-----------
 pkg/torrent/torrent.go  |  8 ++++
 3 files changed, 75 insertions(+), 25 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 2bf5576..7fa1e20 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -107,9 +107,8 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 }
 
 func (m *Manager) initPeers(ctx context.Context, ips []netip.AddrPort, pieceCh chan *util.PeerMessage) {
-	pq := torrent.NewPiecesQueue()
 	for _, ip := range ips {
-		p := peer.NewPeer(ip, m.torrent, pq, pieceCh, m.logger)
+		p := peer.NewPeer(ip, m.torrent, torrent.NewPiecesQueue(), pieceCh, m.logger)
 		if m.AddPeer(p) {
 			m.startPeerDownload(ctx, p)
 		}
diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 4b9a8a3..2b654fd 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -24,6 +24,9 @@ var (
 	clientIdPrefix  = [8]byte{'-', 'G', 'O', '0', '1', '0', '0', '-'}
 )
 
+// maxFailedRequests is number of requests in a row peer can leave without answer.
+const maxFailedRequests = 5
+
 type PiecesSource interface {
 	Next(bitset *bitset.BitSet) (uint, bool)
 }
@@ -174,18 +177,14 @@ func (p *Peer) unchoke(ctx context.Context) error {
 		}
 
 		if err := p.SendInterested(); err != nil {
-			d := b.Duration()
-			p.logger.Warn("peer: failed to send interested message. retrying",
-				zap.Duration("backoff", d),
-				zap.Error(err))
-			if wait(ctx, d) != nil {
-				return ctx.Err()
-			}
-			continue
+			return fmt.Errorf("send interested: %w", err)
 		}
 
 		message, err := p.conn.ReadPeerMessage()
 		if err != nil {
+			if !gotitnet.IsTimeout(err) {
+				return err
+			}
 			d := b.Duration()
 			p.logger.Warn("peer: error reading peer message. retrying",
 				zap.Duration("backoff", d),
@@ -216,6 +215,8 @@ func wait(ctx context.Context, sleepDuration time.Duration) error {
 func (p *Peer) Run(ctx context.Context) {
 	var requestMsg *util.PeerMessage
 	sentPieceMsg := false
+	failedRequests := 0
+	defer p.releasePiece()
 
 	for {
 		// check if canceled
@@ -228,12 +229,21 @@ func (p *Peer) Run(ctx context.Context) {
 			return
 		}
 
+		if !p.PeerStatus.Valid {
+			p.logger.Warn("peer: disconnecting from peer that sent wrong data")
+			return
+		}
+
 		if err := p.checkKeepAlive(); err != nil {
 			p.logger.Debug("peer: failed to check keepalive", zap.Error(err))
 			return
 		}
 
 		if p.ClientStatus.Choked {
+			// peer will not answer our request any more
+			sentPieceMsg = false
+			p.releasePiece()
+
 			if err := p.unchoke(ctx); err != nil {
 				p.logger.Warn("peer: failed to unchoke peer", zap.Error(err))
 				return
@@ -252,26 +262,26 @@ func (p *Peer) Run(ctx context.Context) {
 			}
 
 			if _, err := p.sendMessage(requestMsg); err != nil {
-				p.piecesQueue.RequestFailed(requestMsg)
-				d := b.Duration()
-				p.logger.Warn("Error requesting piece. Retrying",
-					zap.Duration("backoff", d),
-					zap.Error(err))
-				if err := wait(ctx, d); err != nil {
-					return
-				}
-				continue
+				p.logger.Warn("peer: error requesting piece", zap.Error(err))
+				return
 			}
 
-			b.Reset()
 			sentPieceMsg = true
 		}
 
 		response, err := p.conn.ReadPeerMessage()
 		if err != nil {
+			if !gotitnet.IsTimeout(err) {
+				p.logger.Warn("peer: error reading peer message", zap.Error(err))
+				return
+			}
 			if sentPieceMsg {
 				p.piecesQueue.RequestFailed(requestMsg)
 				sentPieceMsg = false
+				if failedRequests++; failedRequests >= maxFailedRequests {
+					p.logger.Warn("peer: no answer to requests")
+					return
+				}
 			}
 			d := b.Duration()
 			if err := wait(ctx, d); err != nil {
@@ -285,6 +295,7 @@ func (p *Peer) Run(ctx context.Context) {
 		p.handlePeerMessage(message)
 		if sentPieceMsg && isResponse(message, requestMsg) {
 			sentPieceMsg = false
+			failedRequests = 0
 		}
 	}
 }
@@ -301,8 +312,10 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 	if p.blockIdx == 0 || p.blockIdx >= p.blockNum {
 		// when finished with piece download check if we have failed
 		// piece requests
-		if req := p.piecesQueue.FailedPieceMessage(); req != nil {
-			return req
+		for req := p.piecesQueue.FailedPieceMessage(); req != nil; req = p.piecesQueue.FailedPieceMessage() {
+			if p.isNeeded(req) {
+				return req
+			}
 		}
 
 		indx, found := p.piecesSource.Next(p.Bitset)
@@ -327,6 +340,29 @@ func (p *Peer) startPiece(indx uint) {
 	}
 }
 
+// isNeeded checks if requested block is still missing in the current piece.
+func (p *Peer) isNeeded(req *util.PeerMessage) bool {
+	if p.torrent == nil {
+		return true
+	}
+	if p.blocks == nil || uint(req.Index()) != p.pieceIdx {
+		return false
+	}
+	_, received := p.blocks[uint(req.Offset())/torrent.BlockLength]
+	return !received
+}
+
+// releasePiece gives unfinished piece back, so it can be downloaded from other
+// peer.
+func (p *Peer) releasePiece() {
+	if p.blocks == nil {
+		return
+	}
+	p.blocks = nil
+	p.blockIdx = 0
+	p.torrent.Release(p.pieceIdx)
+}
+
 // blockLength returns length of the block in current piece. Last block can be
 // shorter than the others.
 func (p *Peer) blockLength(block uint) uint {
@@ -449,6 +485,12 @@ func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
 		return
 	}
 
+	if p.torrent != nil && p.blocks == nil {
+		p.logger.Debug("Discarding late answer for finished or released piece",
+			zap.Uint32("index", message.Index()))
+		return
+	}
+
 	// hash is known only for the whole piece
 	if p.blockNum > 1 {
 		if message = p.addBlock(message); message == nil {
@@ -459,9 +501,11 @@ func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
 	if !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
 			zap.Uint32("index", message.Index()))
+		p.PeerStatus.Valid = false
 		return
 	}
 
+	p.blocks = nil
 	p.writeCh <- message
 	p.Bitset.Set(uint(message.Index()))
 }
@@ -470,13 +514,13 @@ func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
 // piece when all blocks are there.
 func (p *Peer) addBlock(message *util.PeerMessage) *util.PeerMessage {
 	block := uint(message.Offset()) / torrent.BlockLength
-	if p.blocks == nil ||
-		uint(message.Offset())%torrent.BlockLength != 0 ||
+	if uint(message.Offset())%torrent.BlockLength != 0 ||
 		block >= p.blockNum ||
 		uint(len(message.Data())) != p.blockLength(block) {
 		p.logger.Warn("Discarding block that was not requested",
 			zap.Uint32("index", message.Index()),
 			zap.Uint32("offset", message.Offset()))
+		p.PeerStatus.Valid = false
 		return nil
 	}
 
@@ -489,7 +533,6 @@ func (p *Peer) addBlock(message *util.PeerMessage) *util.PeerMessage {
 	for i := uint(0); i < p.blockNum; i++ {
 		piece = append(piece, p.blocks[i]...)
 	}
-	p.blocks = nil
 	return util.CreateBlockMessage(message.Index(), 0, piece)
 }
 
diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 17fface..7135cbf 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -149,6 +149,14 @@ func (t *Torrent) Next(have *bitset.BitSet) (uint, bool) {
 	return 0, false
 }
 
+// Release makes piece returned by Next available again.
+func (t *Torrent) Release(pieceIndx uint) {
+	t.requestedMu.Lock()
+	defer t.requestedMu.Unlock()
+
+	t.requested.Clear(pieceIndx)
+}
+
 func (t *Torrent) Done() bool {
 	t.downloadedMu.Lock()
 	defer t.downloadedMu.Unlock()
-- 
2.43.0


From 437d2efbd4205a2067a5dafd863a82f82678c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:34 +0000
Subject: [PATCH 23/51] fix: keep reading peer messages when there is nothing
 to request

---
 pkg/peer/peer.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 2b654fd..04781ca 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -252,21 +252,16 @@ func (p *Peer) Run(ctx context.Context) {
 
 		b := newDefaultBackoff()
 		if !p.ClientStatus.Choked && p.ClientStatus.Interested && !sentPieceMsg {
-			requestMsg = p.nextRequestMessage()
-			if requestMsg == nil {
-				if err := wait(ctx, time.Second*2); err != nil {
+			// without anything to request keep reading, peer can announce
+			// new pieces
+			if requestMsg = p.nextRequestMessage(); requestMsg != nil {
+				if _, err := p.sendMessage(requestMsg); err != nil {
+					p.logger.Warn("peer: error requesting piece", zap.Error(err))
 					return
 				}
 
-				continue
+				sentPieceMsg = true
 			}
-
-			if _, err := p.sendMessage(requestMsg); err != nil {
-				p.logger.Warn("peer: error requesting piece", zap.Error(err))
-				return
-			}
-
-			sentPieceMsg = true
 		}
 
 		response, err := p.conn.ReadPeerMessage()
-- 
2.43.0


From 515d431c0f392f92d795d74078d156fda0d9eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:13 +0000
Subject: [PATCH 24/51] fix: drop peers that never answer requests but keep
 sending messages

---
 pkg/peer/peer.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 04781ca..2cfe795 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -216,6 +216,7 @@ func (p *Peer) Run(ctx context.Context) {
 	var requestMsg *util.PeerMessage
 	sentPieceMsg := false
 	failedRequests := 0
+	var requestedAt time.Time
 	defer p.releasePiece()
 
 	for {
@@ -240,8 +241,7 @@ func (p *Peer) Run(ctx context.Context) {
 		}
 
 		if p.ClientStatus.Choked {
-			// peer will not answer our request any more
-			sentPieceMsg = false
+			// peer will not answer our requests any more
 			p.releasePiece()
 
 			if err := p.unchoke(ctx); err != nil {
@@ -261,6 +261,7 @@ func (p *Peer) Run(ctx context.Context) {
 				}
 
 				sentPieceMsg = true
+				requestedAt = time.Now()
 			}
 		}
 
@@ -270,27 +271,26 @@ func (p *Peer) Run(ctx context.Context) {
 				p.logger.Warn("peer: error reading peer message", zap.Error(err))
 				return
 			}
-			if sentPieceMsg {
-				p.piecesQueue.RequestFailed(requestMsg)
-				sentPieceMsg = false
-				if failedRequests++; failedRequests >= maxFailedRequests {
-					p.logger.Warn("peer: no answer to requests")
-					return
-				}
-			}
-			d := b.Duration()
-			if err := wait(ctx, d); err != nil {
+			if err := wait(ctx, b.Duration()); err != nil {
 				return
 			}
-			continue
+		} else {
+			message := util.NewPeerMessage(response)
+			p.handlePeerMessage(message)
+			if sentPieceMsg && isResponse(message, requestMsg) {
+				sentPieceMsg = false
+				failedRequests = 0
+			}
 		}
-		b.Reset()
 
-		message := util.NewPeerMessage(response)
-		p.handlePeerMessage(message)
-		if sentPieceMsg && isResponse(message, requestMsg) {
+		// peer can choke us, stay silent or send messages other than the answer
+		if sentPieceMsg && (p.ClientStatus.Choked || time.Since(requestedAt) >= gotitnet.PeerTimeout) {
+			p.piecesQueue.RequestFailed(requestMsg)
 			sentPieceMsg = false
-			failedRequests = 0
+			if failedRequests++; failedRequests >= maxFailedRequests {
+				p.logger.Warn("peer: no answer to requests")
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From df3b48c6156cde562c2f278a7372c46faeac545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 25/51] fix: store and count every piece once, and only when it
 is written

---
 pkg/torrent/torrent.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 7135cbf..bdd1774 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -234,9 +234,14 @@ func (t *Torrent) CheckPiece(data []byte, index int) bool {
 
 func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Stats) {
 	for msg := range piecesCh {
-		piecePoss := int(msg.Index())*t.PieceLength + int(msg.Offset())
-		stats.AddDownload(uint64(len(msg.Data())))
+		if !t.isMissing(msg) {
+			t.logger.Warn("Discarding piece already downloaded or outside of torrent",
+				zap.Int("index", int(msg.Index())),
+				zap.Int("offset", int(msg.Offset())))
+			continue
+		}
 
+		piecePoss := int(msg.Index())*t.PieceLength + int(msg.Offset())
 		if err := t.writePieceData(msg.Data(), piecePoss); err != nil {
 			t.logger.Error("Failed to write piece",
 				zap.Int("index", int(msg.Index())),
@@ -244,6 +249,7 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 				zap.Error(err))
 			continue
 		}
+		stats.AddDownload(uint64(len(msg.Data())))
 
 		if int(msg.Offset())+len(msg.Data()) == t.PieceSize(int(msg.Index())) {
 			t.SetDownloaded(uint(msg.Index()))
@@ -253,6 +259,16 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 	t.logger.Debug("Finished writing pieces")
 }
 
+// isMissing checks if piece data is inside of the piece which is not downloaded.
+func (t *Torrent) isMissing(msg *util.PeerMessage) bool {
+	t.downloadedMu.Lock()
+	defer t.downloadedMu.Unlock()
+
+	index := uint(msg.Index())
+	return index < t.downloaded.Len() && !t.downloaded.Test(index) &&
+		int(msg.Offset())+len(msg.Data()) <= t.PieceSize(int(index))
+}
+
 // writePieceData writes data at the given absolute torrent byte position,
 // spanning across multiple files as needed.
 func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
-- 
2.43.0


From 718e64c7cd0924827ce5d89e346103ae8be8681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 26/51] fix: stats: keep left and percentage in range

---
 pkg/stats/stats.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/stats/stats.go b/pkg/stats/stats.go
index 8a599b8..1b100bd 100644
--- a/pkg/stats/stats.go
+++ b/pkg/stats/stats.go
@@ -14,7 +14,6 @@ type Stats struct {
 
 	download   uint64
 	upload     uint64
-	left       uint64
 	peerNum    uint64
 	trackerNum uint64
 }
@@ -25,7 +24,6 @@ func NewStats(torrentSize uint64) *Stats {
 		torrentSize: torrentSize,
 		download:    0,
 		upload:      0,
-		left:        torrentSize,
 		peerNum:     0,
 		trackerNum:  0,
 	}
@@ -33,7 +31,6 @@ func NewStats(torrentSize uint64) *Stats {
 
 func (ts *Stats) AddDownload(size uint64) {
 	atomic.AddUint64(&ts.download, size)
-	atomic.AddUint64(&ts.left, -size)
 }
 
 func (ts *Stats) AddUpload(size uint64) {
@@ -49,7 +46,11 @@ func (ts *Stats) Upload() uint64 {
 }
 
 func (ts *Stats) Left() uint64 {
-	return atomic.LoadUint64(&ts.left)
+	downloaded := ts.Download()
+	if downloaded > ts.torrentSize {
+		return 0
+	}
+	return ts.torrentSize - downloaded
 }
 
 func (ts *Stats) Speed() float64 {
@@ -82,9 +83,13 @@ func (ts *Stats) TrackerNum() uint64 {
 }
 
 func (ts *Stats) PercentCompleted() int {
-	if ts.torrentSize == 0 || ts.Download() == 0 {
+	downloaded := ts.Download()
+	if ts.torrentSize == 0 || downloaded == 0 {
 		return 0
 	}
+	if downloaded >= ts.torrentSize {
+		return 100
+	}
 
-	return int(math.Round((float64(ts.Download()) / float64(ts.torrentSize)) * 100.0))
+	return int(math.Round((float64(downloaded) / float64(ts.torrentSize)) * 100.0))
 }
-- 
2.43.0


From 6936cced8720cc90281817f214dc608139c8e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:12 +0000
Subject: [PATCH 27/51] fix: end the download when all pieces are stored, after
 its goroutines

---
 pkg/download/manager.go | 44 +++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 7fa1e20..7559075 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -19,6 +19,8 @@ import (
 	"go.uber.org/zap"
 )
 
+const donePollInterval = 200 * time.Millisecond
+
 type Manager struct {
 	logger     *zap.Logger
 	peerNum    int
@@ -53,27 +55,55 @@ func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort in
 
 func (m *Manager) Download(ctx context.Context) error {
 	ctx, m.cancelCtx = context.WithCancel(ctx)
+	defer m.cancelCtx()
 
 	pieceCh := make(chan *util.PeerMessage, 1024)
+	written := make(chan struct{})
+	go func() {
+		defer close(written)
+		m.torrent.WritePiece(pieceCh, m.torrentStatus)
+	}()
 
 	m.initStatisticsPrinting(ctx)
 	m.getIps(ctx, pieceCh)
 
-	go m.torrent.WritePiece(pieceCh, m.torrentStatus)
+	m.waitDone(ctx)
+	m.cancelCtx()
 
-	m.waitPeers()
-	<-ctx.Done()
+	// nobody writes to the channel after trackers and peers are finished
+	m.wg.Wait()
 	close(pieceCh)
+	<-written
 	return nil // TODO: propagate errors
 }
 
+// waitDone waits until all pieces are downloaded or ctx is canceled.
+func (m *Manager) waitDone(ctx context.Context) {
+	ticker := time.NewTicker(donePollInterval)
+	defer ticker.Stop()
+
+	for !m.torrent.Done() {
+		select {
+		case <-ctx.Done():
+			return
+		case <-ticker.C:
+		}
+	}
+}
+
 // announce to all trackers from torrent file and gather
 // peers ip addresses
 func (m *Manager) getIps(ctx context.Context, pieceCh chan *util.PeerMessage) {
 	m.logger.Info("trackers", zap.Any("urls", m.torrent.Trackers))
 
 	for url := range m.torrent.Trackers {
-		go m.runTracker(ctx, url, pieceCh)
+		m.wg.Add(1)
+		go func() {
+			defer m.wg.Done()
+			if err := m.runTracker(ctx, url, pieceCh); err != nil {
+				m.logger.Error("tracker failed", zap.String("url", url), zap.Error(err))
+			}
+		}()
 	}
 }
 
@@ -178,7 +208,9 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 }
 
 func (m *Manager) initStatisticsPrinting(ctx context.Context) {
+	m.wg.Add(1)
 	go func() {
+		defer m.wg.Done()
 		for {
 			select {
 			case <-ctx.Done():
@@ -208,10 +240,6 @@ func (m *Manager) Stop() {
 	m.progressPrinter.Close()
 }
 
-func (m *Manager) waitPeers() {
-	m.wg.Wait()
-}
-
 func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
-- 
2.43.0


From 9a35dada236d738405a5f6f9a351c7688454c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:46 +0000
Subject: [PATCH 28/51] fix: stop the download safely at any time and close
 peer connections

---
 pkg/download/manager.go | 46 +++++++++++++++++++++++++++++------------
 pkg/peer/peer.go        | 11 ++++++++++
 2 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 7559075..889ae43 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -54,8 +54,12 @@ func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort in
 }
 
 func (m *Manager) Download(ctx context.Context) error {
-	ctx, m.cancelCtx = context.WithCancel(ctx)
-	defer m.cancelCtx()
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	if !m.setCancel(cancel) {
+		// already stopped
+		return nil
+	}
 
 	pieceCh := make(chan *util.PeerMessage, 1024)
 	written := make(chan struct{})
@@ -68,7 +72,7 @@ func (m *Manager) Download(ctx context.Context) error {
 	m.getIps(ctx, pieceCh)
 
 	m.waitDone(ctx)
-	m.cancelCtx()
+	cancel()
 
 	// nobody writes to the channel after trackers and peers are finished
 	m.wg.Wait()
@@ -77,6 +81,16 @@ func (m *Manager) Download(ctx context.Context) error {
 	return nil // TODO: propagate errors
 }
 
+// setCancel sets function which stops the download. Returns false if manager is
+// already stopped.
+func (m *Manager) setCancel(cancel context.CancelFunc) bool {
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
+	m.cancelCtx = cancel
+	return m.peerPool != nil
+}
+
 // waitDone waits until all pieces are downloaded or ctx is canceled.
 func (m *Manager) waitDone(ctx context.Context) {
 	ticker := time.NewTicker(donePollInterval)
@@ -202,8 +216,11 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 
 	m.wg.Add(1)
 	go func() {
+		defer m.wg.Done()
 		peer.Run(ctx)
-		m.wg.Done()
+		if err := peer.Close(); err != nil {
+			m.logger.Error("closing peer", zap.Error(err))
+		}
 	}()
 }
 
@@ -222,19 +239,17 @@ func (m *Manager) initStatisticsPrinting(ctx context.Context) {
 	}()
 }
 
+// Stop ends the download. Connections to peers are closed by the download when
+// it finishes with them. Can be called more than once.
 func (m *Manager) Stop() {
-	if m.peerPool == nil {
-		return
-	}
-	m.cancelCtx()
-
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
-	for _, p := range m.peerPool {
-		if err := p.Close(); err != nil {
-			m.logger.Error("closing peer", zap.Error(err))
-		}
+	if m.peerPool == nil {
+		return
+	}
+	if m.cancelCtx != nil {
+		m.cancelCtx()
 	}
 	m.peerPool = nil
 	m.progressPrinter.Close()
@@ -244,6 +259,11 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
+	// manager is stopped
+	if m.peerPool == nil {
+		return false
+	}
+
 	if m.peerPool[peer.AddrPort.String()] != nil {
 		return false
 	}
diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 2cfe795..0306d30 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -143,6 +143,13 @@ func (p *Peer) Announce(torrent *torrent.Torrent) error {
 		return fmt.Errorf("peer connect: %w", err)
 	}
 
+	success := false
+	defer func() {
+		if !success {
+			_ = p.Close()
+		}
+	}()
+
 	if _, err := p.send(createHandshake(torrent.Hash)); err != nil {
 		return fmt.Errorf("peer handshake: %w", err)
 	}
@@ -156,6 +163,7 @@ func (p *Peer) Announce(torrent *torrent.Torrent) error {
 		return errors.New("peer handshake invalid")
 	}
 
+	success = true
 	p.logger.Info("announce to peer successful")
 	return nil
 }
@@ -369,6 +377,9 @@ func (p *Peer) blockLength(block uint) uint {
 }
 
 func (p *Peer) Close() error {
+	if p.conn == nil {
+		return nil
+	}
 	return p.conn.Close()
 }
 
-- 
2.43.0


From faf91ef2dc3023320acb88ac536d342d0eec9484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:48 +0000
Subject: [PATCH 29/51] fix: start peers independently and free their places
 when they end

---
 pkg/download/manager.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 889ae43..9a65a63 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -154,7 +154,12 @@ func (m *Manager) initPeers(ctx context.Context, ips []netip.AddrPort, pieceCh c
 	for _, ip := range ips {
 		p := peer.NewPeer(ip, m.torrent, torrent.NewPiecesQueue(), pieceCh, m.logger)
 		if m.AddPeer(p) {
-			m.startPeerDownload(ctx, p)
+			m.wg.Add(1)
+			go func() {
+				defer m.wg.Done()
+				defer m.removePeer(p)
+				m.startPeerDownload(ctx, p)
+			}()
 		}
 	}
 }
@@ -210,18 +215,13 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 		m.logger.Error("error announcing to peer",
 			zap.Stringer("ip", peer.AddrPort),
 			zap.Error(err))
-		m.torrentStatus.RemovePeer()
 		return
 	}
 
-	m.wg.Add(1)
-	go func() {
-		defer m.wg.Done()
-		peer.Run(ctx)
-		if err := peer.Close(); err != nil {
-			m.logger.Error("closing peer", zap.Error(err))
-		}
-	}()
+	peer.Run(ctx)
+	if err := peer.Close(); err != nil {
+		m.logger.Error("closing peer", zap.Error(err))
+	}
 }
 
 func (m *Manager) initStatisticsPrinting(ctx context.Context) {
@@ -273,6 +273,15 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	return true
 }
 
+// removePeer frees place in the pool taken with AddPeer.
+func (m *Manager) removePeer(peer *peer.Peer) {
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
+	delete(m.peerPool, peer.AddrPort.String())
+	m.torrentStatus.RemovePeer()
+}
+
 func (m *Manager) UpdateStatus(downloaded, uploaded uint64) {
 	m.torrentStatus.AddDownload(downloaded)
 	m.torrentStatus.AddUpload(uploaded)
-- 
2.43.0


From be97fedb9d3df8dcfea5305733f158a963254dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:50 +0000
Subject: [PATCH 30/51] fix: respect the maximum number of peers

---
 pkg/download/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 9a65a63..80841a5 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -264,7 +264,7 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 		return false
 	}
 
-	if m.peerPool[peer.AddrPort.String()] != nil {
+	if len(m.peerPool) >= m.peerNum || m.peerPool[peer.AddrPort.String()] != nil {
 		return false
 	}
 
-- 
2.43.0


From fb2aec37cb09d1da4990b8c3e347e2dbf0e88e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:53 +0000
Subject: [PATCH 31/51] fix: close tracker connections and torrent files when
 the download ends

---
 pkg/cmd/download.go     | 1 +
 pkg/download/manager.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/cmd/download.go b/pkg/cmd/download.go
index 9516b0e..5a582a3 100644
--- a/pkg/cmd/download.go
+++ b/pkg/cmd/download.go
@@ -77,6 +77,7 @@ func runDownload(ctx context.Context, l *zap.Logger, args []string, f *flags) er
 	if err != nil {
 		return err
 	}
+	defer t.Close()
 	mng := download.NewMng(t, l, f.peerNum, f.listenPort)
 	defer mng.Stop()
 
diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 80841a5..e1455c2 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -126,6 +126,7 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 	if err != nil {
 		return err
 	}
+	defer tracker.Close()
 
 	for {
 		m.logger.Info("Sending announce to tracker", zap.String("url", url))
-- 
2.43.0


From cd3f4d9c1dbc5f8d4480dac0da32d4a3b885dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 32/51] fix: accept compact peers in http tracker response

---
 gotit.go                    | 14 +++++++++-----
 pkg/tracker/http_tracker.go | 22 +++++++++++++++-------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/gotit.go b/gotit.go
index 1e60291..03b5a02 100644
--- a/gotit.go
+++ b/gotit.go
@@ -22,11 +22,15 @@ type (
 	}
 
 	AnnounceResponse struct {
-		Failure      string         `ben:"failure reason,optional"`
-		Interval     int            `ben:"interval,optional"`
-		Peers        []AnnouncePeer `ben:"peers,optional"`
-		PeersCompact []byte         `ben:"peers,optional"`
-		PeersIpv6    []byte         `ben:"peers6,optional"`
+		Failure   string `ben:"failure reason,optional"`
+		Interval  int    `ben:"interval,optional"`
+		PeersIpv6 []byte `ben:"peers6,optional"`
+	}
+
+	// AnnouncePeers is part of the response with peers in dictionary form. In
+	// compact form peers are a string.
+	AnnouncePeers struct {
+		Peers []AnnouncePeer `ben:"peers"`
 	}
 
 	AnnouncePeer struct {
diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 0715fcb..1acface 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -121,19 +121,27 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	}
 	t.interval = time.Duration(announceResponse.Interval) * time.Second
 
-	if announceResponse.Peers != nil {
-		p := t.parseBencodePeers(announceResponse.Peers)
-		return p, nil
+	parsed, err := bencode.Parse(res)
+	if err != nil {
+		return nil, err
 	}
-	if announceResponse.PeersCompact != nil {
-		p := parseCompactPeers(announceResponse.PeersCompact)
-		return p, nil
+	if dict, ok := parsed.(*bencode.DictElement); ok {
+		switch peers := dict.Value("peers").(type) {
+		case *bencode.ListElement:
+			var announcePeers gotit.AnnouncePeers
+			if err := bencode.Unmarshal(res, &announcePeers); err != nil {
+				return nil, err
+			}
+			return t.parseBencodePeers(announcePeers.Peers), nil
+		case bencode.StringElement:
+			return parseCompactPeers(peers.Raw()), nil
+		}
 	}
 	if announceResponse.PeersIpv6 != nil {
 		// TODO: parse ipv6 compact response
 	}
 
-	return nil, errors.New("successful tracker response without ")
+	return nil, errors.New("successful tracker response without peers")
 }
 
 func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.AddrPort {
-- 
2.43.0


From f96c828b1dbde02f8760a00408e47bb0500f0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:10 +0000
Subject: [PATCH 33/51] fix: skip peers with invalid address in http tracker
 response

---
 pkg/tracker/http_tracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 1acface..db4297e 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -145,8 +145,8 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 }
 
 func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.AddrPort {
-	ips := make([]netip.AddrPort, len(peers))
-	for i, p := range peers {
+	ips := make([]netip.AddrPort, 0, len(peers))
+	for _, p := range peers {
 		t.logger.Debug("got ip", zap.String("ip", p.Ip))
 		ip, err := netip.ParseAddr(p.Ip)
 		if err != nil {
@@ -174,7 +174,7 @@ func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.Addr
 			t.logger.Warn("invalid ip address", zap.String("ip", p.Ip))
 			continue
 		}
-		ips[i] = ipAddr
+		ips = append(ips, ipAddr)
 	}
 
 	return ips
-- 
2.43.0


From fc18101245a08e02572016fb7c383c64c4a105e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 34/51] fix: keep parameters of the http tracker url

---
 pkg/tracker/http_tracker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index db4297e..dd483a5 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -62,10 +62,15 @@ func (t *httpTracker) Close() error { return nil }
 
 func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
 	q := t.buildQuery(torrentHash, data)
-	r, err := http.NewRequestWithContext(ctx, http.MethodGet, fmt.Sprintf("%s?%s", t.addr, q.Encode()), nil)
+	r, err := http.NewRequestWithContext(ctx, http.MethodGet, t.addr, nil)
 	if err != nil {
 		return nil, err
 	}
+	// tracker url can have its own parameters
+	if r.URL.RawQuery != "" {
+		r.URL.RawQuery += "&"
+	}
+	r.URL.RawQuery += q.Encode()
 
 	res, err := t.c.Do(r)
 	if err != nil {
-- 
2.43.0


From d975f193d626be6c60f7cd0bc24c7f419f4964c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:15 +0000
Subject: [PATCH 35/51] fix: do not announce in a loop when tracker sends no
 interval

---
 pkg/tracker/http_tracker.go |  5 ++---
 pkg/tracker/tracker.go      | 13 +++++++++++++
 pkg/tracker/udp_tracker.go  |  5 ++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index dd483a5..2904708 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -10,7 +10,6 @@ import (
 	"net/netip"
 	"net/url"
 	"strconv"
-	"time"
 
 	"github.com/anivanovic/gotit"
 	"github.com/anivanovic/gotit/pkg/peer"
@@ -47,7 +46,7 @@ func newHttpTracker(addr string, client *http.Client, logger *zap.Logger) *httpT
 		event:     startedEvent,
 		trackerId: uuid.NewString(),
 		waitInterval: waitInterval{
-			interval: time.Minute,
+			interval: defaultInterval,
 		},
 	}
 
@@ -124,7 +123,7 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	if announceResponse.Failure != "" {
 		return nil, fmt.Errorf("tracker failure: %s", announceResponse.Failure)
 	}
-	t.interval = time.Duration(announceResponse.Interval) * time.Second
+	t.setInterval(announceResponse.Interval)
 
 	parsed, err := bencode.Parse(res)
 	if err != nil {
diff --git a/pkg/tracker/tracker.go b/pkg/tracker/tracker.go
index 993fa45..a2e9450 100644
--- a/pkg/tracker/tracker.go
+++ b/pkg/tracker/tracker.go
@@ -3,6 +3,7 @@ package tracker
 import (
 	"context"
 	"fmt"
+	"math"
 	"net/http"
 	"net/url"
 	"time"
@@ -16,6 +17,18 @@ type waitInterval struct {
 	interval time.Duration
 }
 
+// defaultInterval is used until tracker sends a usable interval.
+const defaultInterval = time.Minute
+
+// setInterval sets interval in seconds sent by the tracker.
+func (t *waitInterval) setInterval(seconds int) {
+	if seconds <= 0 || seconds > math.MaxInt32 {
+		t.interval = defaultInterval
+		return
+	}
+	t.interval = time.Duration(seconds) * time.Second
+}
+
 func (t waitInterval) WaitInterval(ctx context.Context) error {
 	select {
 	case <-time.After(t.interval):
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index ed84ae7..4e8f7c5 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -9,7 +9,6 @@ import (
 	"math/rand"
 	"net/netip"
 	"net/url"
-	"time"
 
 	"github.com/anivanovic/gotit"
 	"github.com/anivanovic/gotit/pkg/peer"
@@ -54,7 +53,7 @@ func newUdpTracker(url *url.URL, logger *zap.Logger) (*udpTracker, error) {
 
 	tracker := udpTracker{
 		conn:         conn,
-		waitInterval: waitInterval{time.Minute},
+		waitInterval: waitInterval{defaultInterval},
 		url:          url.String(),
 		log:          logger,
 	}
@@ -169,7 +168,7 @@ func (t *udpTracker) readAnnounce(response []byte, transactionId uint32) ([]neti
 		return nil, err
 	}
 
-	t.interval = time.Duration(binary.BigEndian.Uint32(response[8:12])) * time.Second
+	t.setInterval(int(int32(binary.BigEndian.Uint32(response[8:12]))))
 	leechers := binary.BigEndian.Uint32(response[12:16])
 	seeders := binary.BigEndian.Uint32(response[16:20])
 
-- 
2.43.0


From a0d2ccca6cc21d291a3554c3f4ad30d874562b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:56 +0000
Subject: [PATCH 36/51] fix: udp announce: send info hash and 16 bit port

---
 pkg/tracker/udp_tracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 4e8f7c5..472c4f1 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -135,7 +135,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, connId)
 	binary.Write(request, binary.BigEndian, uint32(announce))
 	binary.Write(request, binary.BigEndian, transactionId)
-	binary.Write(request, binary.BigEndian, torrentHash)
+	binary.Write(request, binary.BigEndian, []byte(torrentHash))
 	binary.Write(request, binary.BigEndian, peer.ClientId)
 	binary.Write(request, binary.BigEndian, data.Downloaded)
 	binary.Write(request, binary.BigEndian, data.Left)
@@ -144,7 +144,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, uint32(0))
 	binary.Write(request, binary.BigEndian, rand.Int31())
 	binary.Write(request, binary.BigEndian, int32(-1))
-	binary.Write(request, binary.BigEndian, int32(data.Port))
+	binary.Write(request, binary.BigEndian, uint16(data.Port))
 	return request.Bytes()
 }
 
-- 
2.43.0


From 71769efce56b37602c39a3689146c6e4973c9667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:57 +0000
Subject: [PATCH 37/51] fix: udp tracker: read reply as single packet

---
 pkg/gotitnet/connection.go | 16 ++++++++++++++++
 pkg/tracker/udp_tracker.go |  8 +++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 58ad024..9a2f6e5 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -22,6 +22,8 @@ const (
 // a bitfield of millions of pieces.
 const maxPeerMessageSize = 1 << 20
 
+const maxPacketSize = 1 << 16
+
 type TimeoutConn struct {
 	// Underlying TCP/UDP connection.
 	c net.Conn
@@ -107,6 +109,20 @@ func (c *TimeoutConn) ReadAll() ([]byte, error) {
 	return io.ReadAll(c.c)
 }
 
+// ReadPacket reads single udp packet from socket.
+// Read deadline is set to timeoutConn.timeout
+func (c *TimeoutConn) ReadPacket() ([]byte, error) {
+	if err := c.setReadDeadline(); err != nil {
+		return nil, err
+	}
+	buf := make([]byte, maxPacketSize)
+	n, err := c.c.Read(buf)
+	if err != nil {
+		return nil, err
+	}
+	return buf[:n], nil
+}
+
 // ReadUdpHandshake reads udp tracker handshake from socket.
 // Read deadline is set to timeoutConn.timeout
 func (c *TimeoutConn) ReadUdpHandshake() ([]byte, error) {
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 472c4f1..48442a8 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -77,9 +77,11 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 	transactionId := createTransactionId()
 	// TODO propagate download stats
 	request := createAnnounce(connId, transactionId, torrentHash, data)
-	t.conn.Write(request)
+	if _, err := t.conn.Write(request); err != nil {
+		return nil, err
+	}
 	t.log.Info("Announce sent to tracker", zap.String("ip", t.Url()))
-	response, err := t.conn.ReadAll()
+	response, err := t.conn.ReadPacket()
 	if err != nil {
 		return nil, err
 	}
@@ -101,7 +103,7 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	}
 	t.log.Info("Sent handshake to tracker")
 
-	response, err := t.conn.ReadUdpHandshake()
+	response, err := t.conn.ReadPacket()
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 789c0db568d8eb4290f2f45996e2dc41626ad37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:58 +0000
Subject: [PATCH 38/51] fix: udp tracker: accept only complete replies of the
 expected kind

---
 pkg/tracker/udp_tracker.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 48442a8..dcd3e0f 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -22,6 +22,7 @@ const protocolId uint64 = 0x41727101980
 const (
 	connect = iota
 	announce
+	scrape
 	conError
 )
 
@@ -86,8 +87,10 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 		return nil, err
 	}
 
-	err = t.parseTrackerResponse(response, transactionId)
-	return t.ips, err
+	if err := t.parseTrackerResponse(response, announce, transactionId); err != nil {
+		return nil, err
+	}
+	return t.ips, nil
 }
 
 func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
@@ -107,17 +110,23 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	if err := t.parseTrackerResponse(response, transactionId); err != nil {
+	if err := t.parseTrackerResponse(response, connect, transactionId); err != nil {
 		return 0, err
 	}
 
 	return t.connectionId, nil
 }
 
-func (t *udpTracker) parseTrackerResponse(response []byte, transactionId uint32) error {
+func (t *udpTracker) parseTrackerResponse(response []byte, expectedAction int, transactionId uint32) error {
+	if len(response) < 8 {
+		return errors.New("udp tracker response size less then 8")
+	}
 	actionCode := int(binary.BigEndian.Uint32(response[:4]))
-	var err error
+	if actionCode != expectedAction && actionCode != conError {
+		return fmt.Errorf("unexpected udp tracker response action code: %d", actionCode)
+	}
 
+	var err error
 	switch actionCode {
 	case connect:
 		t.connectionId, err = readConnect(response, transactionId)
-- 
2.43.0


From e8ac369cedd0b86cc5807caedaf296f6c5761818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 39/51] fix: use log and config flags, report when they are
 wrong

---
 pkg/cmd/app.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/pkg/cmd/app.go b/pkg/cmd/app.go
index 72cdb93..c260b58 100644
--- a/pkg/cmd/app.go
+++ b/pkg/cmd/app.go
@@ -3,8 +3,6 @@ package cmd
 import (
 	"context"
 	"errors"
-	"fmt"
-	"os"
 	"os/signal"
 	"syscall"
 
@@ -95,24 +93,25 @@ func initConfig(cfgPath string) error {
 func (a App) NewCmdRun(
 	fn func(ctx context.Context, appCtx AppContext, args []string) error,
 ) func(cmd *cobra.Command, args []string) {
-	ctx := context.Background()
-	ctx, stop := signal.NotifyContext(ctx, syscall.SIGTERM, syscall.SIGINT)
-
-	if err := initConfig(a.appCfg.CfgPath); err != nil {
-		fmt.Println("could not resolve configuration", err)
-		os.Exit(1)
-	}
-
-	logCfg := a.appCfg.Log
-	l, err := logger.NewCommandLine(logCfg.Level, logCfg.Format)
-	if err != nil {
-		_, _ = fmt.Fprint(os.Stderr, "")
-	}
-	appCtx := AppContext{log: l, printer: printer.NewConsole()}
 	return func(_ *cobra.Command, args []string) {
+		// flags are parsed just before the command is run
+		ctx, stop := signal.NotifyContext(context.Background(), syscall.SIGTERM, syscall.SIGINT)
 		defer stop()
+
+		console := printer.NewConsole()
+		if err := initConfig(a.appCfg.CfgPath); err != nil {
+			console.Fatalf(1, "could not resolve configuration: %v\n", err)
+		}
+
+		logCfg := a.appCfg.Log
+		l, err := logger.NewCommandLine(logCfg.Level, logCfg.Format)
+		if err != nil {
+			console.Fatalf(1, "could not create logger: %v\n", err)
+		}
+
+		appCtx := AppContext{log: l, printer: console}
 		if err := fn(ctx, appCtx, args); err != nil {
-			appCtx.printer.Fatal(1, "error with the app")
+			console.Fatal(1, "error with the app")
 		}
 	}
 }
-- 
2.43.0


From c359acb4a04533389738bde0a000b68969116e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:51 +0000
Subject: [PATCH 40/51] fix: accept all log levels listed in the help

---
 pkg/logger/logger.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/logger/logger.go b/pkg/logger/logger.go
index 10496d3..b67aa61 100644
--- a/pkg/logger/logger.go
+++ b/pkg/logger/logger.go
@@ -12,16 +12,16 @@ import (
 func getZapLevel(level string) (zapcore.Level, error) {
 	level = strings.TrimSpace(strings.ToLower(level))
 	switch level {
-	case "debug":
+	case "debug", "trace":
 		return zapcore.DebugLevel, nil
 	case "info", "":
 		return zapcore.InfoLevel, nil
-	case "warn":
+	case "warn", "warning":
 		return zapcore.WarnLevel, nil
 	case "error":
 		return zapcore.ErrorLevel, nil
 	default:
-		return 0, fmt.Errorf("unknown log level [debug,info,warn,error]: %q", level)
+		return 0, fmt.Errorf("unknown log level [info,debug,trace,warning,error,silent]: %q", level)
 	}
 }
 
-- 
2.43.0


From ad6728534056a49d74462d17188dc71fe5d4be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:54 +0000
Subject: [PATCH 41/51] fix: bencode command: print torrent metadata

---
 pkg/cmd/app.go     |  2 +-
 pkg/cmd/bencode.go | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/pkg/cmd/app.go b/pkg/cmd/app.go
index c260b58..a7309b1 100644
--- a/pkg/cmd/app.go
+++ b/pkg/cmd/app.go
@@ -111,7 +111,7 @@ func (a App) NewCmdRun(
 
 		appCtx := AppContext{log: l, printer: console}
 		if err := fn(ctx, appCtx, args); err != nil {
-			console.Fatal(1, "error with the app")
+			console.Fatalf(1, "error with the app: %v\n", err)
 		}
 	}
 }
diff --git a/pkg/cmd/bencode.go b/pkg/cmd/bencode.go
index c69a26d..69d7cce 100644
--- a/pkg/cmd/bencode.go
+++ b/pkg/cmd/bencode.go
@@ -6,7 +6,6 @@ import (
 	"os"
 
 	"github.com/spf13/cobra"
-	"go.uber.org/zap"
 
 	"github.com/anivanovic/gotit/pkg/bencode"
 )
@@ -26,22 +25,21 @@ func run(_ context.Context, appContext AppContext, args []string) error {
 	file := args[0]
 	f, err := os.Open(file)
 	if err != nil {
-		appContext.log.Fatal("open file", zap.Error(err))
+		return err
 	}
 
 	data, err := io.ReadAll(f)
 	if err != nil {
-		appContext.log.Sugar().Fatalf("read file %s: %v", file, err)
+		return err
 	}
 
 	torrentMetadata := bencode.Metainfo{}
 	if err := bencode.Unmarshal(data, &torrentMetadata); err != nil {
-		appContext.log.Fatal("parse torrent file", zap.Error(err))
+		return err
 	}
 
-	//appContext.printer.Info("Metainfo file:", file)
-	//appContext.printer.Info(torrentMetadata)
+	appContext.printer.Infof("Metainfo file: %s\n", file)
+	appContext.printer.Info(torrentMetadata.String())
 
-	// TODO: return errors instead
 	return nil
 }
-- 
2.43.0


From 2ae0e674e6eb20abd0a84d75235c960f917344d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:03 +0000
Subject: [PATCH 42/51] fix: check offset and size of pieces with a single
 block

A correct piece sent with a wrong offset passed the hash check, was
discarded by the writer and never requested again.
---
 pkg/peer/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 0306d30..8bba92d 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -498,7 +498,7 @@ func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
 	}
 
 	// hash is known only for the whole piece
-	if p.blockNum > 1 {
+	if p.torrent != nil || p.blockNum > 1 {
 		if message = p.addBlock(message); message == nil {
 			return
 		}
-- 
2.43.0


From 0e0be2d0ba8c43586fa4dd9c5a5d86f2f892a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:10 +0000
Subject: [PATCH 43/51] fix: do not request blocks of a piece that is already
 complete

Late answers can complete a piece before all of its blocks are requested
again. The rest of the blocks was still requested, although the piece was
already stored.
---
 pkg/peer/peer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 8bba92d..0b8c723 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -511,7 +511,9 @@ func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
 		return
 	}
 
+	// blocks not requested yet came as late answers, do not ask for them
 	p.blocks = nil
+	p.blockIdx = 0
 	p.writeCh <- message
 	p.Bitset.Set(uint(message.Index()))
 }
-- 
2.43.0


From 383ce732dc74cc213824c69c2f4b2a0e5e9232a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 44/51] fix: skip late and repeated replies of UDP trackers

One late or repeated reply was read as the answer to the next request, its
answer to the one after that, and so on: every later announce to the tracker
failed for the rest of the download.
---
 pkg/tracker/udp_tracker.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index dcd3e0f..ce3ab81 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"net/netip"
 	"net/url"
+	"time"
 
 	"github.com/anivanovic/gotit"
 	"github.com/anivanovic/gotit/pkg/peer"
@@ -82,7 +83,7 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 		return nil, err
 	}
 	t.log.Info("Announce sent to tracker", zap.String("ip", t.Url()))
-	response, err := t.conn.ReadPacket()
+	response, err := t.readReply(transactionId)
 	if err != nil {
 		return nil, err
 	}
@@ -106,7 +107,7 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	}
 	t.log.Info("Sent handshake to tracker")
 
-	response, err := t.conn.ReadPacket()
+	response, err := t.readReply(transactionId)
 	if err != nil {
 		return 0, err
 	}
@@ -117,6 +118,21 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	return t.connectionId, nil
 }
 
+// readReply reads response to the request with transactionId. Late and repeated
+// responses to earlier requests are skipped, until the timeout is over.
+func (t *udpTracker) readReply(transactionId uint32) ([]byte, error) {
+	end := time.Now().Add(gotitnet.TrackerTimeout)
+	for {
+		response, err := t.conn.ReadPacket()
+		if err != nil {
+			return nil, err
+		}
+		if len(response) < 8 || checkResponseTransactionId(response, transactionId) == nil || time.Now().After(end) {
+			return response, nil
+		}
+	}
+}
+
 func (t *udpTracker) parseTrackerResponse(response []byte, expectedAction int, transactionId uint32) error {
 	if len(response) < 8 {
 		return errors.New("udp tracker response size less then 8")
-- 
2.43.0


From b4de51d3bf9e24fd59c7e0771356546848c1c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:26 +0000
Subject: [PATCH 45/51] fix: hand a piece out again when writing it fails

It stayed assigned for the rest of the download, which could never finish even
if only one write failed.
---
 pkg/torrent/torrent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index bdd1774..bab2ec3 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -247,6 +247,7 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 				zap.Int("index", int(msg.Index())),
 				zap.Int("offset", int(msg.Offset())),
 				zap.Error(err))
+			t.Release(uint(msg.Index()))
 			continue
 		}
 		stats.AddDownload(uint64(len(msg.Data())))
-- 
2.43.0


From 6eb078c0f299402ea78176325df3067238a0ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:53 +0000
Subject: [PATCH 46/51] fix: count the trackers in use for the progress line

---
 pkg/download/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index e1455c2..ee02e53 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -128,6 +128,9 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 	}
 	defer tracker.Close()
 
+	m.torrentStatus.AddTracker()
+	defer m.torrentStatus.RemoveTracker()
+
 	for {
 		m.logger.Info("Sending announce to tracker", zap.String("url", url))
 
-- 
2.43.0


From b2e7cd6221dab5011c689e630feb16bd922d4f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:57 +0000
Subject: [PATCH 47/51] fix: wait before a piece whose write failed is
 downloaded again

With the disk failing the same pieces were fetched over and over, as fast as peers
send them.
---
 pkg/torrent/torrent.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index bab2ec3..ecb0391 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path/filepath"
 	"sync"
+	"time"
 
 	"github.com/anivanovic/gotit/pkg/stats"
 	"github.com/tevino/abool/v2"
@@ -23,6 +24,9 @@ import (
 
 const BlockLength uint = 128 * 1024
 
+// writeRetryDelay is time before piece whose write failed is downloaded again.
+const writeRetryDelay = 5 * time.Second
+
 type Torrent struct {
 	logger       *zap.Logger
 	Trackers     util.StringSet
@@ -247,7 +251,9 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 				zap.Int("index", int(msg.Index())),
 				zap.Int("offset", int(msg.Offset())),
 				zap.Error(err))
-			t.Release(uint(msg.Index()))
+			// disk will probably fail again if piece is downloaded right away
+			index := uint(msg.Index())
+			time.AfterFunc(writeRetryDelay, func() { t.Release(index) })
 			continue
 		}
 		stats.AddDownload(uint64(len(msg.Data())))
-- 
2.43.0


From ddb1d6dc9d57f0586e6fc8d6781fe3624a8aaf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:05 +0000
Subject: [PATCH 48/51] fix: take the log settings from the configuration file

---
 pkg/cmd/app.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/cmd/app.go b/pkg/cmd/app.go
index a7309b1..43f19a2 100644
--- a/pkg/cmd/app.go
+++ b/pkg/cmd/app.go
@@ -42,8 +42,8 @@ func NewApp() *App {
 	rootCmd.PersistentFlags().StringVarP(&cfg.Log.Level, "log-level", "l", "info", "App logging level [info,debug,trace,warning,error,silent]")
 	rootCmd.PersistentFlags().StringVar(&cfg.Log.Format, "log-format", "color", "Logging format [text,color,json]")
 	rootCmd.PersistentFlags().StringVar(&cfg.CfgPath, "config", "", "Config file location")
-	viper.BindPFlag("log.level", rootCmd.Flags().Lookup("log-level"))
-	viper.BindPFlag("log.format", rootCmd.Flags().Lookup("log-format"))
+	viper.BindPFlag("log.level", rootCmd.PersistentFlags().Lookup("log-level"))
+	viper.BindPFlag("log.format", rootCmd.PersistentFlags().Lookup("log-format"))
 
 	app := &App{
 		appCfg:  &cfg,
@@ -102,6 +102,10 @@ func (a App) NewCmdRun(
 		if err := initConfig(a.appCfg.CfgPath); err != nil {
 			console.Fatalf(1, "could not resolve configuration: %v\n", err)
 		}
+		// flags that are given win over the configuration file
+		if err := viper.Unmarshal(a.appCfg); err != nil {
+			console.Fatalf(1, "could not resolve configuration: %v\n", err)
+		}
 
 		logCfg := a.appCfg.Log
 		l, err := logger.NewCommandLine(logCfg.Level, logCfg.Format)
-- 
2.43.0


From 0f46108c31a2fcfb37d7a5942ff91fdc72918d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 49/51] fix: give up announces an HTTP tracker does not answer

---
 pkg/tracker/http_tracker.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 2904708..8f5a6db 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -10,6 +10,7 @@ import (
 	"net/netip"
 	"net/url"
 	"strconv"
+	"time"
 
 	"github.com/anivanovic/gotit"
 	"github.com/anivanovic/gotit/pkg/peer"
@@ -28,6 +29,9 @@ const (
 	completedEvent tEvent = "completed"
 )
 
+// announceTimeout limits one announce, from request to the end of its response.
+const announceTimeout = 30 * time.Second
+
 type httpTracker struct {
 	c         *http.Client
 	addr      string
@@ -60,6 +64,10 @@ func (t *httpTracker) Url() string {
 func (t *httpTracker) Close() error { return nil }
 
 func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
+	// trackers that never answer, or never stop answering, count as failed
+	ctx, cancel := context.WithTimeout(ctx, announceTimeout)
+	defer cancel()
+
 	q := t.buildQuery(torrentHash, data)
 	r, err := http.NewRequestWithContext(ctx, http.MethodGet, t.addr, nil)
 	if err != nil {
-- 
2.43.0


From a02742ac0a0c952f656994ebcf06dee3dc4e3ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 50/51] fix: do not read endless tracker responses into memory

---
 pkg/tracker/http_tracker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 8f5a6db..f2ae058 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -32,6 +32,9 @@ const (
 // announceTimeout limits one announce, from request to the end of its response.
 const announceTimeout = 30 * time.Second
 
+// maxResponseSize limits the response of a tracker.
+const maxResponseSize = 8 << 20
+
 type httpTracker struct {
 	c         *http.Client
 	addr      string
@@ -83,6 +86,7 @@ func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *go
 	if err != nil {
 		return nil, err
 	}
+	res.Body = http.MaxBytesReader(nil, res.Body, maxResponseSize)
 	defer func() {
 		if err := res.Body.Close(); err != nil {
 			t.logger.Warn("error closing announce response",
-- 
2.43.0


From 81d5d06f4dfd69b8f759b8b5c0e851421a55a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 51/51] fix: look for the address of a UDP tracker again when
 it was not found

---
 pkg/tracker/udp_tracker.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index ce3ab81..fa4576b 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -36,6 +36,8 @@ const (
 
 // BEP15
 type udpTracker struct {
+	network, address string
+	// conn is nil until address is resolved, which is tried in every announce.
 	conn *gotitnet.TimeoutConn
 	ips  []netip.AddrPort
 	url  string
@@ -48,13 +50,9 @@ type udpTracker struct {
 }
 
 func newUdpTracker(url *url.URL, logger *zap.Logger) (*udpTracker, error) {
-	conn, err := gotitnet.NewTimeoutConn(url.Scheme, url.Host, gotitnet.TrackerTimeout)
-	if err != nil {
-		return nil, err
-	}
-
 	tracker := udpTracker{
-		conn:         conn,
+		network:      url.Scheme,
+		address:      url.Host,
 		waitInterval: waitInterval{defaultInterval},
 		url:          url.String(),
 		log:          logger,
@@ -66,11 +64,29 @@ func (t *udpTracker) Url() string {
 	return t.url
 }
 
+func (t *udpTracker) connect() error {
+	if t.conn != nil {
+		return nil
+	}
+	conn, err := gotitnet.NewTimeoutConn(t.network, t.address, gotitnet.TrackerTimeout)
+	if err != nil {
+		return err
+	}
+	t.conn = conn
+	return nil
+}
+
 func (t *udpTracker) Close() error {
+	if t.conn == nil {
+		return nil
+	}
 	return t.conn.Close()
 }
 
 func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
+	if err := t.connect(); err != nil {
+		return nil, err
+	}
 	connId, err := t.handshake(ctx)
 	if err != nil {
 		return nil, err
-- 
2.43.0


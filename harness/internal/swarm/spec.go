// Package swarm builds torrents and the world around a download: scripted peers
// and trackers on the virtual network, watched by monitors.
package swarm

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"

	"verif/internal/ref"
)

// BlockLimit is the most a client may ask for at once.
const BlockLimit = 128 * 1024

// File is one file of a torrent.
type File struct {
	Path   []string
	Length int
}

// Spec is a torrent with its content.
type Spec struct {
	Name     string
	Single   bool
	Files    []File
	PieceLen int
	Length   int
	Content  []byte
	Info     []byte // raw info dictionary as in the document
	Doc      []byte
	Hash     [20]byte
}

// Shape limits generated torrents.
type Shape struct {
	MaxPieces int
	// MaxPieceLen bounds the piece length; Big asks for pieces of several blocks.
	MaxPieceLen int
	Big         bool
	Trackers    []string // the first is announce, the rest announce-list
	UrlList     []string
	Single      *bool
	// Odd asks for names with spaces, percent signs and the like.
	Odd bool
}

// NewSpec makes a torrent from its layout. The content is random.
func NewSpec(r *rand.Rand, name string, single bool, files []File, pieceLen int, trackers, urlList []string) *Spec {
	s := &Spec{Name: name, Single: single, Files: files, PieceLen: pieceLen}
	for _, f := range files {
		s.Length += f.Length
	}
	s.Content = make([]byte, s.Length)
	fill(r, s.Content)
	var hashes []byte
	for i := 0; i < s.NumPieces(); i++ {
		h := sha1.Sum(s.Piece(i))
		hashes = append(hashes, h[:]...)
	}
	info := ref.D()
	if single {
		info.Put("length", ref.I(int64(s.Length)))
	} else {
		fl := ref.L()
		for _, f := range files {
			p := ref.L()
			for _, e := range f.Path {
				p.L = append(p.L, ref.S(e))
			}
			fl.L = append(fl.L, ref.D("length", ref.I(int64(f.Length)), "path", p))
		}
		info.Put("files", fl)
	}
	info.Put("name", ref.S(name))
	info.Put("piece length", ref.I(int64(pieceLen)))
	info.Put("pieces", ref.B(hashes))
	doc := ref.D("announce", ref.S(trackers[0]))
	if len(trackers) > 1 {
		l := ref.L()
		for _, t := range trackers[1:] {
			l.L = append(l.L, ref.L(ref.S(t)))
		}
		doc.Put("announce-list", l)
	}
	if len(urlList) > 0 {
		l := ref.L()
		for _, t := range urlList {
			l.L = append(l.L, ref.S(t))
		}
		doc.Put("url-list", l)
	}
	doc.Put("info", info)
	s.Info = info.Encode()
	s.Doc = doc.Encode()
	s.Hash = sha1.Sum(s.Info)
	return s
}

func fill(r *rand.Rand, b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.Uint64()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v) | 1 // never zero, so a hole in a file is visible
			v >>= 8
		}
	}
}

// Gen makes a random torrent.
func Gen(r *rand.Rand, sh Shape) *Spec {
	if sh.MaxPieces == 0 {
		sh.MaxPieces = 12
	}
	if sh.MaxPieceLen == 0 {
		sh.MaxPieceLen = 4096
	}
	trackers := sh.Trackers
	if len(trackers) == 0 {
		trackers = []string{"http://tracker.test/announce"}
	}
	pieceLen := 1 + r.IntN(sh.MaxPieceLen)
	switch {
	case sh.Big:
		pieceLen = []int{BlockLimit, BlockLimit + 1, BlockLimit - 1, 2 * BlockLimit, 2*BlockLimit + 1, 3*BlockLimit - 7, 5 * BlockLimit, 1 + r.IntN(4*BlockLimit)}[r.IntN(8)]
	case r.IntN(3) == 0:
		pieceLen = 1 << r.IntN(12)
		if pieceLen > sh.MaxPieceLen {
			pieceLen = sh.MaxPieceLen
		}
	}
	pieces := 1 + r.IntN(sh.MaxPieces)
	if sh.Big && r.IntN(25) == 0 {
		pieceLen = (6+r.IntN(30))*BlockLimit - r.IntN(2)*r.IntN(BlockLimit)
		pieces = 1 + r.IntN(2)
	}
	last := 1 + r.IntN(pieceLen)
	if r.IntN(4) == 0 {
		last = pieceLen
	}
	length := (pieces-1)*pieceLen + last
	single := r.IntN(2) == 0
	if sh.Single != nil {
		single = *sh.Single
	}
	name, files := word(r), Layout(r, length, pieceLen, single)
	if sh.Odd {
		name = OddWord(r)
		for i := range files {
			if n := len(files[i].Path); n > 0 && r.IntN(2) == 0 {
				files[i].Path[n-1] = fmt.Sprintf("%d", i) + OddWord(r)
			}
		}
	}
	return NewSpec(r, name, single, files, pieceLen, trackers, sh.UrlList)
}

// Layout splits a length into files.
func Layout(r *rand.Rand, length, pieceLen int, single bool) []File {
	if single {
		return []File{{Length: length}}
	}
	n := 1 + r.IntN(6)
	var files []File
	left := length
	for i := 0; i < n; i++ {
		var l int
		switch r.IntN(6) {
		case 0:
			l = 0
		case 1:
			l = 1
		case 2:
			l = pieceLen
		default:
			l = r.IntN(left + 1)
		}
		if l > left {
			l = left
		}
		files = append(files, File{Length: l})
		left -= l
	}
	if left > 0 || len(files) == 0 {
		files = append(files, File{Length: left})
	}
	if r.IntN(4) == 0 {
		files = append(files, File{Length: 0})
	}
	r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
	for i := range files {
		for d := r.IntN(3); d > 0; d-- {
			files[i].Path = append(files[i].Path, fmt.Sprintf("d%d", r.IntN(2)))
		}
		files[i].Path = append(files[i].Path, fmt.Sprintf("f%d%s", i, word(r)))
	}
	return files
}

func word(r *rand.Rand) string {
	b := make([]byte, 1+r.IntN(8))
	for i := range b {
		b[i] = byte('a' + r.IntN(26))
	}
	return string(b)
}

// OddWord is a printable file name that is easy to get wrong.
func OddWord(r *rand.Rand) string {
	return word(r) + []string{"", " ", "%", "%s", "%d%%", "%!v", " (1)", "é", "日本", "'q'", "\"dq\"", "\\", "{x}", "..", ".", "~", "$HOME", "#", "&", ":"}[r.IntN(20)] + word(r)
}

// NumPieces is the piece count.
func (s *Spec) NumPieces() int { return (s.Length + s.PieceLen - 1) / s.PieceLen }

// PieceSize is the actual size of a piece.
func (s *Spec) PieceSize(i int) int {
	if rest := s.Length - i*s.PieceLen; rest < s.PieceLen {
		return rest
	}
	return s.PieceLen
}

// Piece is the content of a piece.
func (s *Spec) Piece(i int) []byte {
	return s.Content[i*s.PieceLen : i*s.PieceLen+s.PieceSize(i)]
}

// Blocks is the smallest number of requests the whole torrent takes.
func (s *Spec) Blocks() int {
	n := 0
	for i := 0; i < s.NumPieces(); i++ {
		n += (s.PieceSize(i) + BlockLimit - 1) / BlockLimit
	}
	return n
}

// Load runs the document through the real decoder and constructor.
func (s *Spec) Load(dir string) (*torrent.Torrent, error) {
	var m bencode.Metainfo
	if err := bencode.Unmarshal(s.Doc, &m); err != nil {
		return nil, err
	}
	return torrent.New(&m, dir, zap.NewNop())
}

// Path of a file below the output directory.
func (s *Spec) Path(dir string, i int) string {
	if s.Single {
		return filepath.Join(dir, s.Name)
	}
	return filepath.Join(append([]string{dir, s.Name}, s.Files[i].Path...)...)
}

// Disk reads the torrent's content back as a flat image. Missing bytes are zero.
// A file longer than declared is an error.
func (s *Spec) Disk(dir string) ([]byte, error) {
	img := make([]byte, 0, s.Length)
	for i, f := range s.Files {
		data, err := os.ReadFile(s.Path(dir, i))
		if err != nil {
			return nil, err
		}
		if len(data) > f.Length {
			return nil, fmt.Errorf("file %v has %d bytes, declared are %d", f.Path, len(data), f.Length)
		}
		buf := make([]byte, f.Length)
		copy(buf, data)
		img = append(img, buf...)
	}
	return img, nil
}

// Prefill puts older files, longer or shorter, where the torrent's files go.
func (s *Spec) Prefill(r *rand.Rand, dir string) error {
	for i, f := range s.Files {
		if r.IntN(3) == 0 {
			continue
		}
		p := s.Path(dir, i)
		if err := os.MkdirAll(filepath.Dir(p), 0o777); err != nil {
			return err
		}
		old := make([]byte, r.IntN(2*f.Length+20))
		fill(r, old)
		if err := os.WriteFile(p, old, 0o666); err != nil {
			return err
		}
	}
	return nil
}

// OnDisk tells which pieces are completely on disk.
func (s *Spec) OnDisk(img []byte) []bool {
	on := make([]bool, s.NumPieces())
	for i := range on {
		on[i] = bytes.Equal(img[i*s.PieceLen:i*s.PieceLen+s.PieceSize(i)], s.Piece(i))
	}
	return on
}

// Complete checks that every file is byte for byte the content.
func (s *Spec) Complete(dir string) error {
	pos := 0
	for i, f := range s.Files {
		data, err := os.ReadFile(s.Path(dir, i))
		if err != nil {
			return err
		}
		want := s.Content[pos : pos+f.Length]
		if len(data) != len(want) {
			return fmt.Errorf("file %v has %d bytes, declared are %d", f.Path, len(data), len(want))
		}
		for j := range want {
			if data[j] != want[j] {
				return fmt.Errorf("file %v differs from the content at byte %d (torrent byte %d, piece %d)", f.Path, j, pos+j, (pos+j)/s.PieceLen)
			}
		}
		pos += f.Length
	}
	return nil
}

// String describes the layout.
func (s *Spec) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "torrent %q length=%d piece=%d pieces=%d files=[", s.Name, s.Length, s.PieceLen, s.NumPieces())
	for _, f := range s.Files {
		fmt.Fprintf(&b, "%s:%d ", strings.Join(f.Path, "/"), f.Length)
	}
	return b.String() + "]"
}

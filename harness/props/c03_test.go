package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/superisaac/jlib"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c03Case struct {
	Msgs   []MsgSpec `json:"msgs"`
	Seps   []string  `json:"seps"`             // before each message, and one after the last
	Chunks []int     `json:"chunks"`           // sizes, repeated
	Cut    int       `json:"cut"`              // -1: whole stream; else bytes kept (modulo length)
	EOFNow bool      `json:"eofnow"`           // the last bytes come together with EOF
	Broken bool      `json:"broken,omitempty"` // the reader fails at the end
}

var errStream = errors.New("connection lost")

// chunkReader delivers the data in the given chunk sizes.
type chunkReader struct {
	data   []byte
	chunks []int
	i      int
	eofNow bool
	end    error
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.end
	}
	n := len(p)
	if len(c.chunks) > 0 {
		if k := c.chunks[c.i%len(c.chunks)]; k < n {
			n = k
		}
		c.i++
	}
	n = copy(p[:n], c.data)
	c.data = c.data[n:]
	if len(c.data) == 0 && c.eofNow {
		return n, c.end
	}
	return n, nil
}

func c03Gen(t *rapid.T) c03Case {
	n := pbt.Size(t, 6, 40, "msgs")
	c := c03Case{Cut: -1, EOFNow: rapid.Bool().Draw(t, "eofnow")}
	for i := 0; i < n; i++ {
		c.Msgs = append(c.Msgs, genMsgSpec(t))
	}
	for i := 0; i <= n; i++ {
		c.Seps = append(c.Seps, pbt.Pick(t, "sep", "", "", "\n", " ", "\r\n", "\t \n\n", "\n"))
	}
	switch pbt.Weighted(t, "chunkkind", 30, 40, 30) {
	case 0:
		c.Chunks = []int{1}
	case 1:
		c.Chunks = rapid.SliceOfN(rapid.IntRange(1, 40), 1, 5).Draw(t, "chunks")
	default:
		c.Chunks = rapid.SliceOfN(rapid.IntRange(1, 5000), 1, 5).Draw(t, "chunks")
	}
	c.Broken = pbt.Chance(t, 15, "broken")
	if pbt.Chance(t, 45, "cut?") {
		c.Cut = rapid.IntRange(0, 1<<20).Draw(t, "cut")
	}
	return c
}

type c03Span struct{ from, to int }

// stream writes the messages and tells where each one lies and where to cut.
func (c c03Case) stream() (stream []byte, spans []c03Span, cut int, err error) {
	for i, m := range c.Msgs {
		stream = append(stream, c.Seps[i]...)
		from := len(stream)
		m.Native = false
		b, err := jlib.MessageBytes(m.build())
		if err != nil {
			return nil, nil, 0, err
		}
		switch i % 3 { // two of three messages as written by someone else
		case 1:
			b = pbt.Raw(m.object())
		case 2:
			b, _ = json.MarshalIndent(m.object(), "", "\t")
		}
		stream = append(stream, b...)
		spans = append(spans, c03Span{from, len(stream)})
	}
	if len(c.Seps) > 0 {
		stream = append(stream, c.Seps[len(c.Seps)-1]...)
	}
	cut = len(stream)
	if c.Cut >= 0 && len(stream) > 0 {
		cut = c.Cut % (len(stream) + 1)
	}
	return stream, spans, cut, nil
}

func c03Run(r *pbt.Rec, c c03Case) error {
	stream, spans, cut, err := c.stream()
	if err != nil {
		return err
	}
	whole, inside := 0, false
	for _, s := range spans {
		if s.to <= cut {
			whole++
		} else if s.from < cut {
			inside = true
		}
	}
	if len(c.Msgs) > 1 {
		r.NonTrivial()
	}
	r.Label("inside=%v", inside)
	if whole > 10 {
		r.Label("more than ten messages")
	}
	if len(stream) > 4096 {
		r.Label("stream over 4096 bytes")
	}
	end := io.EOF
	if c.Broken {
		end = errStream
		r.Label("the reader fails")
	}
	dec := json.NewDecoder(&chunkReader{data: append([]byte{}, stream[:cut]...), chunks: c.Chunks, eofNow: c.EOFNow, end: end})
	for i := 0; i < whole; i++ {
		msg, err := jlib.DecodeMessage(dec)
		if err != nil {
			return fmt.Errorf("message %d of %d (stream cut at %d of %d): %v", i, whole, cut, len(stream), err)
		}
		m := c.Msgs[i]
		m.Native = false
		if err := m.checkFull(msg); err != nil {
			return fmt.Errorf("message %d: %w", i, err)
		}
		alone, err := jlib.ParseBytes(stream[spans[i].from:spans[i].to])
		if err != nil {
			return fmt.Errorf("message %d alone: %v", i, err)
		}
		if err := sameMessage(alone, msg); err != nil {
			return fmt.Errorf("message %d alone and in the stream: %w", i, err)
		}
	}
	for k := 0; k < 3; k++ {
		msg, err := jlib.DecodeMessage(dec)
		if err == nil {
			return fmt.Errorf("after the %d complete messages another %T is decoded", whole, msg)
		}
		if msg != nil {
			return fmt.Errorf("message and error together")
		}
		if c.Broken {
			if err == io.EOF {
				return fmt.Errorf("a stream that cannot be read further is reported as a clean end")
			}
			continue
		}
		if !inside && !errors.Is(err, io.EOF) {
			return fmt.Errorf("end of stream is reported as %v", err)
		}
		if inside && k == 0 && err == io.EOF {
			return fmt.Errorf("a stream cut inside a message is reported as a clean end")
		}
	}
	return nil
}

func TestC03(t *testing.T) {
	pbt.Check(t, "C03", pbt.Part[c03Case]{Name: "stream", Quick: 60000, Gen: c03Gen, Run: c03Run},
		pbt.Part[c03Wire]{Name: "wire", Quick: 3000, Gen: c03WireGen, Run: c03WireRun})
}

//go:build go1.22

package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"time"

	"github.com/nanobus/iota/go/types/uuid"
	"github.com/nanobus/iota/go/verifh/kit"
)

// text writes the standard form.
func text(u uuid.UUID) string {
	h := hex.EncodeToString(u[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

// mixed writes some letters in the other case.
func mixed(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.IntN(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

// reference reads the supported forms.
func reference(s string) (u uuid.UUID, ok bool) {
	switch len(s) {
	case 32:
		b, err := hex.DecodeString(s)
		copy(u[:], b)
		return u, err == nil
	case 38:
		if s[0] != '{' || s[37] != '}' {
			return u, false
		}
		s = s[1:37]
	case 45:
		for i := 0; i < 9; i++ {
			if c := s[i]; c != "urn:uuid:"[i] && c != "URN:UUID:"[i] {
				return u, false
			}
		}
		s = s[9:]
	case 36:
	default:
		return u, false
	}
	if s[8] != '-' || s[13] != '-' || s[18] != '-' || s[23] != '-' {
		return u, false
	}
	b, err := hex.DecodeString(s[:8] + s[9:13] + s[14:18] + s[19:23] + s[24:])
	copy(u[:], b)
	return u, err == nil && len(b) == 16
}

// read parses s in every way and compares with the reference.
func read(t *kit.T, s string) {
	want, ok := reference(s)
	what := func() string { return fmt.Sprintf("%q", s) }
	old := uuid.UUID{1, 2, 3}
	one := func(how string, got uuid.UUID, err error) {
		if ok && (err != nil || got != want) {
			t.Violate("a UUID is misread", "%s of %s: %v %v, not %v", how, what(), got, err, want)
		} else if !ok && err == nil {
			t.Violate("what is no UUID is read as one", "%s of %s: %v", how, what(), got)
		}
	}
	t.Guard("reading a UUID", what, func() {
		got, err := uuid.Parse(s)
		one("Parse", got, err)
		b := []byte(s)
		got, err = uuid.ParseBytes(b)
		one("ParseBytes", got, err)
		if string(b) != s {
			t.Violate("reading changes the text", "%s", what())
		}
		v := old
		err = v.UnmarshalText(b)
		one("UnmarshalText", v, err)
		if err != nil && v != old {
			t.Violate("a failed reading changes the UUID", "%s: %v", what(), v)
		}
		j, _ := json.Marshal(s)
		var k string
		if json.Unmarshal(j, &k); k == s { // JSON carries it
			v = old
			err = json.Unmarshal(j, &v)
			one("JSON", v, err)
			if err != nil && v != old {
				t.Violate("a failed reading changes the UUID", "%s: %v", what(), v)
			}
		}
		func() {
			defer func() {
				x := recover()
				if (x == nil) != ok {
					t.Violate("MustParse", "%s: %v", what(), x)
				}
			}()
			if got := uuid.MustParse(s); got != want {
				t.Violate("a UUID is misread", "MustParse of %s: %v", what(), got)
			}
		}()
		if _, err := uuid.Parse(s); uuid.IsInvalidLengthError(err) != (len(s) != 32 && len(s) != 36 && len(s) != 38 && len(s) != 45) {
			t.Violate("length error", "%s: %v", what(), err)
		}
	})
	if ok {
		kit.Count("UUIDs read", 1)
	} else {
		kit.Count("texts refused", 1)
	}
	t.Case(s)
}

func random(r *rand.Rand) (u uuid.UUID) {
	switch r.IntN(8) {
	case 0:
		return
	case 1:
		for i := range u {
			u[i] = 0xff
		}
		return
	case 2:
		u[r.IntN(16)] = byte(r.Uint32())
		return
	}
	binary.BigEndian.PutUint64(u[:], r.Uint64())
	binary.BigEndian.PutUint64(u[8:], r.Uint64())
	return
}

type doc struct {
	ID  uuid.UUID            `json:"id" xml:"id,attr"`
	Ptr *uuid.UUID           `json:"ptr" xml:"ptr"`
	Map map[uuid.UUID]string `json:"map" xml:"-"`
}

func forms(t *kit.T) {
	r := t.Rand
	for i := 0; i < kit.N(6000, 200_000); i++ {
		u := random(r)
		if i < 128 { // every bit
			u = uuid.UUID{}
			u[i/8] = 1 << (i % 8)
		}
		s := text(u)
		if u.String() != s || u.URN() != "urn:uuid:"+s {
			t.Violate("a UUID is miswritten", "%x: %q %q", u[:], u.String(), u.URN())
		}
		h := strings.ReplaceAll(s, "-", "")
		for _, f := range []string{s, "urn:uuid:" + s, "{" + s + "}", h} {
			read(t, f)
			read(t, mixed(r, f))
		}
		b, err := u.MarshalText()
		if err != nil || string(b) != s {
			t.Violate("a UUID is miswritten", "%s: %q %v", s, b, err)
		}
		b[0] ^= 1
		if u.String() != s {
			t.Violate("written text shares the UUID", "%s", s)
		}
		b, err = u.MarshalBinary()
		if err != nil || string(b) != string(u[:]) {
			t.Violate("a UUID is miswritten", "%s: %x %v", s, b, err)
		}
		var v uuid.UUID
		if err := v.UnmarshalBinary(b); err != nil || v != u {
			t.Violate("a UUID is misread", "%x: %v %v", b, v, err)
		}
		w, err := uuid.FromBytes(b)
		b[3] ^= 7
		if err != nil || w != u || u.String() != s || v != u {
			t.Violate("a UUID is misread", "%s: %v %v", s, w, err)
		}
		for _, n := range []int{0, 1, 15, 17, 32, r.IntN(64)} {
			if n == 16 {
				continue
			}
			v := u
			if err := v.UnmarshalBinary(make([]byte, n)); err == nil || v != u {
				t.Violate("what is no UUID is read as one", "%d bytes: %v %v", n, v, err)
			}
			if _, err := uuid.FromBytes(make([]byte, n)); err == nil {
				t.Violate("what is no UUID is read as one", "%d bytes", n)
			}
		}
		if i%8 == 0 {
			d := doc{ID: u, Ptr: &u, Map: map[uuid.UUID]string{u: "x", random(r): "y"}}
			j, err := json.Marshal(d)
			var back doc
			if err != nil || json.Unmarshal(j, &back) != nil || back.ID != u || back.Ptr == nil || *back.Ptr != u || len(back.Map) != len(d.Map) || back.Map[u] != d.Map[u] {
				t.Violate("a UUID does not survive JSON", "%s: %s %v", s, j, err)
			}
			if !strings.Contains(string(j), `"id":"`+s+`"`) {
				t.Violate("a UUID is miswritten", "JSON %s", j)
			}
			x, err := xml.Marshal(d)
			var bx doc
			if err != nil || xml.Unmarshal(x, &bx) != nil || bx.ID != u || bx.Ptr == nil || *bx.Ptr != u {
				t.Violate("a UUID does not survive XML", "%s: %s %v", s, x, err)
			}
		}
		// fields
		if v := uint(u.Version()); v != uint(u[6]>>4) || u.Version().String() != fmt.Sprint("VERSION_", u[6]>>4) {
			t.Violate("version", "%s: %d %v", s, v, u.Version())
		}
		var want string
		for _, c := range []struct {
			mask, val byte
			name      string
		}{{0x80, 0, "Reserved"}, {0xc0, 0x80, "RFC4122"}, {0xe0, 0xc0, "Microsoft"}, {0xe0, 0xe0, "Future"}} {
			if u[8]&c.mask == c.val {
				want = c.name
			}
		}
		if u.Variant().String() != want {
			t.Violate("variant", "%s: %v, not %s", s, u.Variant(), want)
		}
		ts := uint64(u[6]&15)<<56 | uint64(u[7])<<48 | uint64(u[4])<<40 | uint64(u[5])<<32 | uint64(u[0])<<24 | uint64(u[1])<<16 | uint64(u[2])<<8 | uint64(u[3])
		if uint64(u.Time()) != ts {
			t.Violate("time field", "%s: %d, not %d", s, u.Time(), ts)
		}
		if c := int(u[8]&0x3f)<<8 | int(u[9]); u.ClockSequence() != c {
			t.Violate("clock sequence field", "%s: %d, not %d", s, u.ClockSequence(), c)
		}
		sec, ns := u.Time().UnixTime()
		start := time.Date(1582, 10, 15, 0, 0, 0, 0, time.UTC)
		at := time.Unix(start.Unix()+int64(ts/10_000_000), int64(ts%10_000_000)*100)
		if !time.Unix(sec, ns).Equal(at) {
			t.Violate("time field", "%s: %v, not %v", s, time.Unix(sec, ns), at)
		}
		kit.Count("UUIDs", 1)
		if t.Failed() {
			return
		}
	}
}

var junk = []byte("0123456789abcdefABCDEFgGzZ-:{}uU \x00\x7f\x80\xffxX/@`")

func near(t *kit.T) {
	r := t.Rand
	for i := 0; i < kit.N(60_000, 1_000_000); i++ {
		u := random(r)
		s := text(u)
		f := []string{s, "urn:uuid:" + s, "{" + s + "}", strings.ReplaceAll(s, "-", "")}[r.IntN(4)]
		if r.IntN(2) == 0 {
			f = mixed(r, f)
		}
		b := []byte(f)
		for k := 0; k < 1+r.IntN(2); k++ {
			p := r.IntN(len(b))
			c := junk[r.IntN(len(junk))]
			if r.IntN(4) == 0 {
				c = byte(r.Uint32())
			}
			switch r.IntN(6) {
			case 0:
				b = append(b[:p], b[p+1:]...)
			case 1:
				b = append(b[:p], append([]byte{c}, b[p:]...)...)
			case 2:
				q := r.IntN(len(b))
				b[p], b[q] = b[q], b[p]
			default:
				b[p] = c
			}
		}
		read(t, string(b))
		if t.Failed() {
			return
		}
	}
	// every character at every place
	for _, f := range []string{text(random(r)), "urn:uuid:" + text(random(r)), "{" + text(random(r)) + "}", strings.ReplaceAll(text(random(r)), "-", "")} {
		for p := range f {
			for c := 0; c < 256; c++ {
				b := []byte(f)
				b[p] = byte(c)
				read(t, string(b))
			}
		}
		for n := 0; n <= 100; n++ {
			read(t, strings.Repeat(f, 4)[:n])
		}
	}
	// letters whose case differs by more than a bit, and that change in length
	for _, c := range []string{"\u0130", "\u212a", "\u017f", "İ", "ſ", "\u1e9e"} {
		s := text(random(r))
		for p := 0; p < 9; p++ {
			read(t, "urn:uuid:"[:p]+c+s)
			for q := p; q < 9; q++ {
				read(t, "urn:uuid:"[:p]+c+"urn:uuid:"[q:]+s)
			}
		}
	}
}

// source hands out blocks that are all different and remembers them.
type source struct {
	mu    sync.Mutex
	r     *rand.Rand
	given [][]byte
	short bool
	fail  int // fails when it reaches 0
	bytes int
}

var errSource = errors.New("no more randomness")

func (s *source) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail > 0 {
		if s.fail--; s.fail == 0 {
			return 0, errSource
		}
	}
	n := len(p)
	if s.short && n > 1 {
		n = 1 + s.r.IntN(n)
	}
	for i := 0; i < n; i++ {
		p[i] = byte(s.r.Uint32())
	}
	s.given = append(s.given, append([]byte(nil), p[:n]...))
	s.bytes += n
	return n, nil
}

// stream is all that was handed out.
func (s *source) stream() []byte {
	var b []byte
	for _, g := range s.given {
		b = append(b, g...)
	}
	return b
}

func valid(t *kit.T, u uuid.UUID, how string) {
	if u.Version() != 4 || u.Variant() != uuid.RFC4122 || u[6]>>4 != 4 || u[8]>>6 != 2 {
		t.Violate("not a version 4 UUID", "%s: %v", how, u)
	}
}

// mask is a block of randomness as a UUID.
func mask(b []byte) (u uuid.UUID) {
	copy(u[:], b)
	u[6] = u[6]&0x0f | 0x40
	u[8] = u[8]&0x3f | 0x80
	return
}

// generation has several workers generate from a source that is recorded:
// each UUID must be a block of it of its own.
func generation(t *kit.T) {
	r := t.Rand
	defer uuid.SetRand(nil)
	defer uuid.DisableRandPool()
	for round := 0; round < kit.N(120, 2000); round++ {
		src := &source{r: rand.New(rand.NewPCG(r.Uint64(), 1)), short: r.IntN(3) == 0}
		workers := 1 + r.IntN(8)
		if workers > 1 {
			src.short = false // short reads of several readers interleave
		}
		pool := round%2 == 0
		uuid.DisableRandPool()
		uuid.SetRand(src)
		if pool {
			uuid.EnableRandPool()
			src.short = src.short || r.IntN(3) == 0
		}
		per := 1 + r.IntN(80)
		all := make([][]uuid.UUID, workers)
		var wg sync.WaitGroup
		for w := range all {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					switch (w + i) % 3 {
					case 0:
						all[w] = append(all[w], uuid.New())
					case 1:
						u, err := uuid.NewRandom()
						if err != nil {
							t.Violate("no UUID", "%v", err)
						}
						all[w] = append(all[w], u)
					case 2:
						u, err := uuid.Parse(uuid.NewString())
						if err != nil {
							t.Violate("no UUID", "%v", err)
						}
						all[w] = append(all[w], u)
					}
				}
			}()
		}
		wg.Wait()
		blocks := map[uuid.UUID]int{}
		b := src.stream()
		for ; len(b) >= 16; b = b[16:] {
			blocks[mask(b)]++
		}
		for _, us := range all {
			for _, u := range us {
				valid(t, u, "generated")
				if blocks[u] == 0 {
					t.Violate("a UUID is not of the random source, or comes twice", "pool %v, %d workers: %v", pool, workers, u)
				}
				blocks[u]--
				kit.Count("UUIDs generated", 1)
			}
		}
		if n := workers * per * 16; src.bytes > n+240 {
			t.Violate("randomness is wasted", "%d bytes for %d", src.bytes, n)
		}
		t.Case(fmt.Sprint(pool, workers, per, src.short, src.given[0]))
		if t.Failed() {
			return
		}
	}
	// the pool is switched between generations
	src := &source{r: rand.New(rand.NewPCG(r.Uint64(), 1))}
	uuid.DisableRandPool()
	uuid.SetRand(src)
	seen := map[uuid.UUID]bool{}
	for i := 0; i < kit.N(2000, 40_000); i++ {
		switch r.IntN(12) {
		case 0:
			uuid.EnableRandPool()
		case 1:
			uuid.DisableRandPool()
		}
		u := uuid.New()
		valid(t, u, "switching")
		if seen[u] {
			t.Violate("a UUID comes twice", "%v", u)
			return
		}
		seen[u] = true
		kit.Count("UUIDs generated while the pool is switched", 1)
	}
}

// failing has the source fail: no UUID may come of it, and none is repeated
// after it.
func failing(t *kit.T) {
	r := t.Rand
	defer uuid.SetRand(nil)
	defer uuid.DisableRandPool()
	for i := 0; i < kit.N(400, 10_000); i++ {
		uuid.DisableRandPool()
		src := &source{r: rand.New(rand.NewPCG(r.Uint64(), 1)), short: true}
		uuid.SetRand(src)
		pool := r.IntN(2) == 0
		if pool {
			uuid.EnableRandPool()
		}
		seen := map[uuid.UUID]bool{}
		fails := 0
		for j := 0; j < 60; j++ {
			if r.IntN(4) == 0 && src.fail == 0 {
				src.fail = 1 + r.IntN(6)
			}
			u, err := uuid.NewRandom()
			if err != nil {
				fails++
				if u != (uuid.UUID{}) {
					t.Violate("a UUID with an error", "%v %v", u, err)
				}
				continue
			}
			valid(t, u, "failing source")
			if seen[u] {
				t.Violate("a UUID comes twice", "%v, pool %v", u, pool)
				return
			}
			seen[u] = true
		}
		src.fail = 1
		u, err := uuid.NewRandomFromReader(src)
		if err == nil || u != (uuid.UUID{}) {
			t.Violate("a UUID of a failing source", "%v %v", u, err)
		}
		if !pool {
			src.fail = 1
			func() {
				defer func() {
					if recover() == nil {
						t.Violate("a UUID of a failing source", "New returns")
					}
				}()
				uuid.New()
			}()
		}
		src.fail = 0
		for n := 0; n < 16; n++ {
			if u, err := uuid.NewRandomFromReader(strings.NewReader(strings.Repeat("x", n))); err == nil {
				t.Violate("a UUID of too little randomness", "%d bytes: %v", n, u)
			}
		}
		block := make([]byte, 20)
		for j := range block {
			block[j] = byte(r.Uint32())
		}
		rd := strings.NewReader(string(block))
		if u, err := uuid.NewRandomFromReader(rd); err != nil || u != mask(block) || rd.Len() != 4 {
			t.Violate("a UUID is not of the random source", "%v %v of %x", u, err, block)
		}
		kit.Count("failures of the source", int64(fails))
		t.Case(fmt.Sprint("failing", src.given[:1], pool))
		if t.Failed() {
			return
		}
	}
}

// unique generates from the system's source.
func unique(t *kit.T) {
	uuid.SetRand(nil)
	defer uuid.DisableRandPool()
	for _, pool := range []bool{false, true} {
		if pool {
			uuid.EnableRandPool()
		} else {
			uuid.DisableRandPool()
		}
		const workers = 8
		all := make([][]uuid.UUID, workers)
		var wg sync.WaitGroup
		n := kit.N(5000, 100_000)
		for w := range all {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					all[w] = append(all[w], uuid.New())
				}
			}()
		}
		wg.Wait()
		seen := map[uuid.UUID]bool{}
		var or, and uuid.UUID
		for i := range and {
			and[i] = 0xff
		}
		for _, us := range all {
			for _, u := range us {
				valid(t, u, "system source")
				if seen[u] {
					t.Violate("a UUID comes twice", "%v, pool %v", u, pool)
					return
				}
				seen[u] = true
				for i := range u {
					or[i] |= u[i]
					and[i] &= u[i]
				}
			}
		}
		// each of the 122 bits takes both values
		if mask(or[:]) != or || or != mask([]byte(strings.Repeat("\xff", 16))) || and != mask(make([]byte, 16)) {
			t.Violate("bits that are not random", "%v %v", or, and)
		}
		kit.Count("UUIDs of the system source", int64(len(seen)))
		t.Case(fmt.Sprint("system", pool))
	}
}

// clock has several workers ask for the time and clock sequence.
func clock(t *kit.T) {
	r := t.Rand
	for round := 0; round < kit.N(60, 1000); round++ {
		set := r.IntN(1 << 20)
		uuid.SetClockSequence(set)
		if c := uuid.ClockSequence(); c != set&0x3fff {
			t.Violate("clock sequence", "%d, set to %d", c, set)
		}
		type stamp struct {
			t uuid.Time
			c uint16
		}
		const workers = 6
		all := make([][]stamp, workers)
		var wg sync.WaitGroup
		from := time.Now()
		for w := range all {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 200; i++ {
					at, c, err := uuid.GetTime()
					if err != nil {
						t.Violate("no time", "%v", err)
					}
					all[w] = append(all[w], stamp{at, c})
					if i%16 == 0 {
						uuid.ClockSequence()
					}
				}
			}()
		}
		wg.Wait()
		to := time.Now()
		seen := map[stamp]bool{}
		for _, ss := range all {
			for _, s := range ss {
				if seen[s] {
					t.Violate("time and clock sequence come twice", "%v", s)
					return
				}
				seen[s] = true
				if s.c>>14 != 2 {
					t.Violate("variant of the clock sequence", "%x", s.c)
				}
				sec, ns := s.t.UnixTime()
				if at := time.Unix(sec, ns); at.Before(from.Add(-time.Millisecond)) || at.After(to.Add(time.Millisecond)) {
					t.Violate("time", "%v, not within %v and %v", at, from, to)
				}
				kit.Count("time stamps", 1)
			}
		}
		t.Case(fmt.Sprint(set, len(seen)))
		if t.Failed() {
			return
		}
	}
	uuid.SetClockSequence(-1)
	if c := uuid.ClockSequence(); c != uuid.ClockSequence() || c < 0 || c > 0x3fff {
		t.Violate("clock sequence", "%d", c)
	}
}

func main() {
	kit.Main(kit.Config{
		Property: "P29",
		Rule:     "Random and edge UUIDs in every supported form and letter case are written and read in every way and compared with a reference; texts near a UUID (every character at every place of each form, all lengths, mutations) likewise; generation by up to eight workers from a recorded random source that also fails and reads short, with the pool on, off and switched, where each UUID must be its own block of the source; time stamps of several workers. Distinct by text or configuration.",
		Assumptions: []string{
			"SetRand, EnableRandPool and DisableRandPool are not called during generation, as their documentation says.",
			"The wall clock does not jump during the check.",
		},
		Scenarios: []kit.Scenario{
			{Name: "forms", Run: forms},
			{Name: "near", Run: near},
			{Name: "generation", Yields: []int{0, 1, 2}, Run: generation},
			{Name: "failing source", Run: failing},
			{Name: "system source", Yields: []int{0, 2}, Run: unique},
			{Name: "clock", Yields: []int{0, 2}, Run: clock},
		},
	})
}

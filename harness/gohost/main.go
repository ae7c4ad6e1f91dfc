// Runs programs through the Go binding with a scripted host and records what
// the host sees. Reads one JSON job per line from stdin, writes one JSON record
// per line to the file named by the first argument. Built by checks/c19.py.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"sync"

	concordia "github.com/Toyz/concordia/go"
)

type answer struct {
	V string `json:"v"`
	R int    `json:"r"`
}

type job struct {
	Load  *int     `json:"load"`
	Img   string   `json:"img"`
	Names []string `json:"names"`
	Run   string   `json:"run"`
	P     int      `json:"p"`
	Md    int      `json:"md"`
	Init  string   `json:"init"`
	Ans   []answer `json:"ans"`
	Once  bool     `json:"once"`  // Execute(image, ...) instead of a loaded program
	Group []job    `json:"group"` // run at the same time
	Inner *job     `json:"inner"` // run from inside notification At
	At    int      `json:"at"`
}

type event struct {
	T string `json:"t"`
	K int    `json:"k"`
	V []int  `json:"v"`
	C []int  `json:"c"` // content of a string, if decoding
	A int64  `json:"a"` // address passed, if one into the message
	R int    `json:"r"`
	G int    `json:"g"` // the mode the host is told
}

type record struct {
	Case string  `json:"case"`
	P    int     `json:"p"`
	Md   int     `json:"md"`
	Err  int     `json:"err"`
	Text string  `json:"text"`
	Init []int   `json:"init"`
	Buf  []int   `json:"buf"`
	Ev   []event `json:"ev"`
}

type program struct {
	p   *concordia.Program
	img []byte
}

var consts map[string]int // filled in by a generated file
var programs = map[int]*program{}
var out *bufio.Writer
var mu sync.Mutex

func put(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	mu.Lock()
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
	mu.Unlock()
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return b
}

func num(b []byte) uint64 {
	var v uint64
	for i, x := range b {
		v |= uint64(x) << (8 * i)
	}
	return v
}

var codes = []struct {
	e error
	c int
}{
	{concordia.GoErrOOB, int(concordia.ErrOOB)}, {concordia.GoErrInvalidOp, int(concordia.ErrInvalidOp)},
	{concordia.GoErrValidation, int(concordia.ErrValidation)}, {concordia.GoErrCallback, int(concordia.ErrCallback)},
	{concordia.GoErrStackOverflow, int(concordia.ErrStackOverflow)}, {concordia.GoErrStackUnderflow, int(concordia.ErrStackUnderflow)},
}

// the result code an error stands for: by the value a host compares it with,
// or, if there is none for it, by the text the library has for the code
func code(err error) (int, string) {
	if err == nil {
		return 0, ""
	}
	for _, c := range codes {
		if errors.Is(err, c.e) {
			return c.c, err.Error()
		}
	}
	for _, c := range []concordia.Error{concordia.ErrCRCMismatch, concordia.ErrArithmetic} {
		if err.Error() == c.String() {
			return int(c), err.Error()
		}
	}
	return 77, err.Error()
}

func (j *job) exec() (rec record) {
	p := programs[j.P]
	data := unhex(j.Init)
	rec = record{Case: j.Run, P: j.P, Md: j.Md, Init: ints(data), Ev: []event{}}
	defer func() {
		if x := recover(); x != nil {
			rec.Err, rec.Text = 78, fmt.Sprint("panic: ", x)
		}
		rec.Buf = ints(data)
	}()
	inner := j.Inner
	cb := func(ctx *concordia.Context, key uint16, op concordia.OpCode, v concordia.Value) error {
		i := len(rec.Ev)
		if inner != nil && i == j.At {
			in := inner
			inner = nil
			put(in.exec())
		}
		a := answer{R: 1}
		if i < len(j.Ans) {
			a = j.Ans[i]
		}
		e := event{K: int(key), R: a.R, G: int(ctx.Mode()), V: []int{}, C: []int{}}
		given := unhex(a.V)
		n := 0
		ask := j.Md == 0 && a.R == 0
		switch op {
		case concordia.OpEnterStruct:
			e.T = "enter"
		case concordia.OpExitStruct:
			e.T = "exit"
		case concordia.OpArrEnd:
			e.T = "arre"
		case concordia.OpArrFixed, concordia.OpArrDynamic:
			e.T = "arrf"
			if op == concordia.OpArrDynamic {
				e.T = "arrd"
			}
			e.V = ints(le(uint64(v.Uint32()), 4))
		case concordia.OpRawBytes:
			e.T = "raw"
			e.A = int64(uintptr(v.UnsafeAddr()))
			if ask {
				fill(v, given)
				e.V = ints(given)
			}
		case concordia.OpStrNull, concordia.OpStrPreU8, concordia.OpStrPreU16, concordia.OpStrPreU32:
			e.T = map[concordia.OpCode]string{concordia.OpStrNull: "str0", concordia.OpStrPreU8: "str1", concordia.OpStrPreU16: "str2", concordia.OpStrPreU32: "str4"}[op]
			if j.Md == 1 {
				e.C = ints([]byte(v.String()))
				e.A = int64(uintptr(v.UnsafeAddr()))
			} else if ask {
				v.SetString(string(given))
				e.V = ints(given)
			}
		default:
			e.T, n = kind(op)
			if op == concordia.OpLoadCtx || op == concordia.OpCtxQuery {
				ask = a.R == 0
			}
			if op == concordia.OpStoreCtx {
				ask = false
			}
			if n == 0 {
				e.T = fmt.Sprintf("unknown%d", op)
				break
			}
			if ask {
				set(v, op, num(given))
			}
			e.V = ints(le(get(v, op), n))
			if a.R == 1 && (j.Md == 0 || op == concordia.OpLoadCtx || op == concordia.OpCtxQuery) && op != concordia.OpStoreCtx {
				e.V = ints(make([]byte, n)) // what was there before is nobody's business
			}
		}
		rec.Ev = append(rec.Ev, e)
		if a.R != 0 {
			return errors.New("refused")
		}
		return nil
	}
	var err error
	if j.Once {
		err = concordia.Execute(p.img, data, concordia.Mode(j.Md), cb)
	} else {
		err = p.p.Execute(data, concordia.Mode(j.Md), cb)
	}
	rec.Err, rec.Text = code(err)
	return
}

func kind(op concordia.OpCode) (string, int) {
	switch op {
	case concordia.OpIoU8:
		return "u8", 1
	case concordia.OpIoU16:
		return "u16", 2
	case concordia.OpIoU32:
		return "u32", 4
	case concordia.OpIoU64:
		return "u64", 8
	case concordia.OpIoI8:
		return "i8", 1
	case concordia.OpIoI16:
		return "i16", 2
	case concordia.OpIoI32:
		return "i32", 4
	case concordia.OpIoI64:
		return "i64", 8
	case concordia.OpIoF32:
		return "f32", 4
	case concordia.OpIoF64:
		return "f64", 8
	case concordia.OpIoBool:
		return "bool", 1
	case concordia.OpIoBitU:
		return "bitu", 8
	case concordia.OpIoBitI:
		return "biti", 8
	case concordia.OpIoBitBool:
		return "bitb", 1
	case concordia.OpArrPreU8:
		return "arr1", 1
	case concordia.OpArrPreU16:
		return "arr2", 2
	case concordia.OpArrPreU32:
		return "arr4", 4
	case concordia.OpCtxQuery:
		return "query", 8
	case concordia.OpLoadCtx:
		return "load", 8
	case concordia.OpStoreCtx:
		return "store", 8
	}
	return "", 0
}

func set(v concordia.Value, op concordia.OpCode, x uint64) {
	switch op {
	case concordia.OpIoU8, concordia.OpArrPreU8:
		v.SetUint8(uint8(x))
	case concordia.OpIoI8:
		v.SetInt8(int8(x))
	case concordia.OpIoBool, concordia.OpIoBitBool:
		if x > 1 {
			v.SetUint8(uint8(x))
		} else {
			v.SetBool(x == 1)
		}
	case concordia.OpIoU16, concordia.OpArrPreU16:
		v.SetUint16(uint16(x))
	case concordia.OpIoI16:
		v.SetInt16(int16(x))
	case concordia.OpIoU32, concordia.OpArrPreU32:
		v.SetUint32(uint32(x))
	case concordia.OpIoI32:
		v.SetInt32(int32(x))
	case concordia.OpIoF32:
		v.SetFloat32(math.Float32frombits(uint32(x)))
	case concordia.OpIoF64:
		v.SetFloat64(math.Float64frombits(x))
	case concordia.OpIoI64, concordia.OpIoBitI:
		v.SetInt64(int64(x))
	default:
		v.SetUint64(x)
	}
}

func get(v concordia.Value, op concordia.OpCode) uint64 {
	switch op {
	case concordia.OpIoU8, concordia.OpArrPreU8:
		return uint64(v.Uint8())
	case concordia.OpIoI8:
		return uint64(int64(v.Int8()))
	case concordia.OpIoBool, concordia.OpIoBitBool:
		if x := v.Uint8(); x > 1 {
			return uint64(x)
		}
		if v.Bool() {
			return 1
		}
		return 0
	case concordia.OpIoU16, concordia.OpArrPreU16:
		return uint64(v.Uint16())
	case concordia.OpIoI16:
		return uint64(int64(v.Int16()))
	case concordia.OpIoU32, concordia.OpArrPreU32:
		return uint64(v.Uint32())
	case concordia.OpIoI32:
		return uint64(int64(v.Int32()))
	case concordia.OpIoF32:
		return uint64(math.Float32bits(v.Float32()))
	case concordia.OpIoF64:
		return math.Float64bits(v.Float64())
	case concordia.OpIoI64, concordia.OpIoBitI:
		return uint64(v.Int64())
	default:
		return v.Uint64()
	}
}

func load(j *job) {
	img := unhex(j.Img)
	n := *j.Load
	p, err := concordia.LoadProgram(img)
	c, text := code(err)
	r := map[string]any{"prog": n, "load": c, "text": text, "img": ints(img)}
	if err == nil {
		programs[n] = &program{p, img}
		names := [][]int{}
		ids := []int{}
		for i := range j.Names {
			names = append(names, ints([]byte(p.GetKeyName(uint16(i)))))
		}
		for _, s := range j.Names {
			ids = append(ids, int(p.GetKeyID(string(unhex(s)))))
		}
		r["namesb"], r["ids"] = names, ids
		beyond := 0
		if p.GetKeyName(uint16(len(j.Names))) == "" && p.GetKeyName(0xFFFF) == "" {
			beyond = 1
		}
		r["beyond"], r["absent"] = beyond, int(p.GetKeyID("no such name at all"))
	}
	put(r)
}

func main() {
	f, err := os.OpenFile(os.Args[1], os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	out = bufio.NewWriter(f)
	put(map[string]any{"consts": consts})
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var j job
			if e := json.Unmarshal(line, &j); e != nil {
				panic(e)
			}
			switch {
			case j.Load != nil:
				put(map[string]string{"begin": fmt.Sprint("load ", *j.Load)})
				load(&j)
			case j.Group != nil:
				put(map[string]string{"begin": "group " + j.Group[0].Run})
				start := make(chan int)
				var wg sync.WaitGroup
				for i := range j.Group {
					g := &j.Group[i]
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						put(g.exec())
					}()
				}
				close(start)
				wg.Wait()
			default:
				put(map[string]string{"begin": "run " + j.Run})
				put(j.exec())
			}
		}
		if err != nil {
			break
		}
	}
	for _, p := range programs {
		p.p.Close()
		p.p.Close()
		// a closed program neither runs nor knows names
		if p.p.Execute([]byte{1, 2, 3}, concordia.ModeDecode, func(*concordia.Context, uint16, concordia.OpCode, concordia.Value) error { return nil }) == nil ||
			p.p.GetKeyName(0) != "" || p.p.GetKeyID("a") != 0xFFFF {
			put(map[string]int{"closed": 1})
			break
		}
	}
}

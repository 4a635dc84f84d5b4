package h

import (
	"errors"
	"io"
	"net"
	"net/url"

	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

func cmd(vals ...interface{}) []byte {
	return lib.ChunkMsg(lib.Msg{Csid: 3, Type: 20, Data: flvio.FillAMF0ValsMalloc(vals)}, 128)
}

// anyVal is a value of any AMF kind
func anyVal(name string) interface{} {
	switch vf.Choose(name, 6) {
	case 0:
		return vf.String("s", 1)
	case 1:
		return float64(1)
	case 2:
		return nil
	case 3:
		return true
	case 4:
		return flvio.AMFMap{}
	}
	return flvio.AMFArray{"x"}
}

func hello() []byte { return append([]byte{3}, make([]byte, 3072)...) }

func serve(in []byte) (*rtmp.Conn, *lib.FakeConn, bool) {
	s := rtmp.NewServer()
	var c *rtmp.Conn
	called := false
	s.OnNewConn = func(x *rtmp.Conn) { c = x }
	s.HandleConn = func(x *rtmp.Conn, nc net.Conn) { called = true }
	nc := &lib.FakeConn{In: lib.Chunked{B: in, K: 4096}}
	s.HandleNetConn(nc)
	return c, nc, called
}

// the server accepts exactly the sessions that make sense, and never crashes
//vf:bound a connect command with every kind of value as object, app and tcUrl, optional createStream, then publish, play or another command with a name of any kind; any missing part
//vf:preempt 0
//vf:time 60
func VF_ServerCommands() {
	in := hello()
	first := "connect"
	if vf.Bool("other") {
		first = vf.String("first", 7)
	}
	var obj interface{}
	app, tc, validObj := "", "", true
	if vf.Bool("bad") {
		obj = anyVal("obj")
		_, isMap := obj.(flvio.AMFMap)
		validObj = false
		_ = isMap
	} else {
		m := flvio.AMFMap{}
		if vf.Bool("app") {
			app = "a"
			m = append(m, flvio.AMFKv{K: "app", V: "a"})
		} else {
			x := anyVal("appv")
			app, _ = x.(string)
			_, validObj = x.(string)
			m = append(m, flvio.AMFKv{K: "app", V: x})
		}
		switch vf.Choose("tc", 4) {
		case 0:
			tc = "rtmp://h/a"
			m = append(m, flvio.AMFKv{K: "tcUrl", V: tc})
		case 1:
			tc = "rtmp://h/a"
			m = append(m, flvio.AMFKv{K: "tcurl", V: tc})
		case 2:
			m = append(m, flvio.AMFKv{K: "tcUrl", V: anyVal("tcv")})
		}
		obj = m
	}
	in = append(in, cmd(first, float64(1), obj)...)
	if vf.Bool("cs") {
		in = append(in, cmd("createStream", float64(2), nil)...)
	}
	op := vf.Choose("op", 3)
	switch op {
	case 0:
		in = append(in, cmd("publish", float64(3), nil, "s")...)
	case 1:
		in = append(in, cmd("play", float64(3), nil, "s")...)
	case 2:
		vals := []interface{}{[]string{"publish", "play", "x"}[vf.Choose("name", 3)], float64(3), nil, anyVal("p")}
		in = append(in, cmd(vals[:2+vf.Choose("np", 3)]...)...)
	}
	c, nc, called := serve(in)
	ok := vf.And(first == "connect", validObj && tc != "")
	if op < 2 {
		if ok && app == "a" {
			vf.Assert(called && c.Stage >= rtmp.StageGotPublishOrPlayCommand, "a proper session is handed over")
			vf.Assert(c.Publishing == (op == 0), "direction")
			vf.Assert(c.URL.Path == "/a/s" && c.URL.Host == "h" && c.URL.Scheme == "rtmp", "URL")
			vf.Cover("accepted")
			return
		}
	}
	if !validObj || tc == "" || first != "connect" {
		vf.Assert(!called, "an improper session is not handed over")
		vf.Assert(nc.Closed, "and its connection is closed")
		vf.Cover("refused")
	}
}

// the server answers connect and createStream with their transaction ids
//vf:bound every transaction id (as a non-NaN number) of connect and createStream
//vf:preempt 0
func VF_ServerAnswers() {
	t1, t2 := float64(vf.U16("t1")), float64(vf.U16("t2"))
	in := append(hello(), cmd("connect", t1, flvio.AMFMap{{K: "app", V: "a"}, {K: "tcUrl", V: "rtmp://h/a"}})...)
	in = append(in, cmd("createStream", t2, nil)...)
	in = append(in, cmd("publish", float64(4), nil, "s")...)
	_, nc, called := serve(in)
	vf.Assert(called, "handed over")
	msgs, ok := lib.RefDechunk(nc.Out[3073:], 128)
	vf.Assert(ok, "whole messages")
	var cmds [][]interface{}
	for _, m := range msgs {
		if m.Type == 20 {
			v, err := flvio.ParseAMFVals(m.Data, false)
			vf.Assert(err == nil, "command")
			cmds = append(cmds, v)
		}
	}
	vf.Assert(len(cmds) == 2, "two answers")
	for i, c := range cmds {
		n, _ := c[0].(string)
		x, _ := c[1].(float64)
		vf.Assert(n == "_result" && x == []float64{t1, t2}[i], "answer to its transaction")
	}
	sid, isnum := cmds[1][3].(float64)
	vf.Assert(isnum && sid == 1, "stream id")
	vf.Cover("done")
}

// the client accepts exactly the answers that grant its request, and does not wait for more after a refusal
//vf:bound server answers connect with _result, _error or another command, with level status, error, missing or no object; createStream with a stream id, nothing or _error; publish/play with onStatus of level status, error or missing
//vf:preempt 0
//vf:time 60
func VF_ClientAnswers() {
	pub := vf.Bool("pub")
	flags := rtmp.PrepareReading
	if pub {
		flags = rtmp.PrepareWriting
	}
	info := func(name string) (interface{}, bool) {
		switch vf.Choose(name, 5) {
		case 0:
			return flvio.AMFMap{{K: "level", V: "status"}, {K: "code", V: "x"}}, true
		case 1:
			return flvio.AMFMap{{K: "level", V: "error"}, {K: "code", V: "x"}}, false
		case 2:
			return flvio.AMFMap{{K: "code", V: "x"}}, false
		case 3:
			return flvio.AMFMap{{K: "level", V: float64(1)}}, false
		}
		return nil, false
	}
	in := append(hello())
	in[1+9] = 1 // not a digest handshake either way
	ok := true
	name := []string{"_result", "_error", "onBWDone"}[vf.Choose("name", 3)]
	i1, g := info("i1")
	ok = ok && g && name == "_result"
	in = append(in, cmd(name, float64(1), flvio.AMFMap{}, i1)...)
	sid := vf.U16("sid")
	trans := float64(2)
	if pub {
		trans = 4
	}
	refused := name == "_error"
	switch vf.Choose("cs", 3) {
	case 0:
		in = append(in, cmd("_result", trans, nil)...)
		ok = false
	case 1:
		in = append(in, cmd("_result", trans, nil, float64(sid))...)
	case 2:
		in = append(in, cmd("_error", trans, nil, flvio.AMFMap{{K: "level", V: "error"}})...)
		refused = refused || ok
		ok = false
	}
	i2, g := info("i2")
	ok = ok && g
	in = append(in, cmd("onStatus", float64(0), nil, i2)...)
	// later answers must not rescue a refusal
	u, _ := url.Parse("rtmp://host/app/stream")
	nc := &lib.FakeConn{In: lib.Chunked{B: in, K: 4096}}
	c, err := rtmp.NewClient().FromNetConn(nc, u, flags)
	vf.Assert((err == nil) == ok, "success exactly when every request was granted")
	if !ok {
		vf.Assert(c == nil, "no connection to use")
		if refused {
			vf.Assert(!errors.Is(err, lib.EOF) && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF), "known before the server closes the connection")
		}
		vf.Cover("refused")
		return
	}
	vf.Assert(c.Publishing == pub, "direction")
	msgs, whole := lib.RefDechunk(nc.Out[3073:], 128)
	vf.Assert(whole, "whole messages")
	last := msgs[len(msgs)-1]
	v, perr := flvio.ParseAMFVals(last.Data, false)
	vf.Assert(perr == nil && len(v) >= 4, "last command")
	n, _ := v[0].(string)
	s, _ := v[3].(string)
	want := "play"
	if pub {
		want = "publish"
	}
	vf.Assert(n == want && s == "stream", "asks for the stream")
	vf.Assert(last.Sid == uint32(sid), "on the stream the server created")
	vf.Cover("granted")
}

// other answers and messages between the ones a client waits for do not confuse it
//vf:bound publish and play; before, between and after the connect and createStream answers up to two of: answers or errors to releaseStream and FCPublish with or without a value, onBWDone, onFCPublish, window and bandwidth messages, a data message; every 16-bit stream id
//vf:preempt 0
//vf:time 60
func VF_ChattyServer() {
	pub := vf.Bool("pub")
	flags := rtmp.PrepareReading
	trans := float64(2)
	if pub {
		flags = rtmp.PrepareWriting
		trans = 4
	}
	extra := func(in []byte, name string, answers bool) []byte {
		for i := vf.Choose(name+" n", vf.Tier(2, 3)); i > 0; i-- {
			k := vf.Choose(name, 9)
			if k >= 5 && !(answers && pub) {
				k -= 5
			}
			switch k {
			case 0:
				in = append(in, cmd("onBWDone", float64(0), nil)...)
			case 1:
				in = append(in, cmd("onFCPublish", float64(0), nil, flvio.AMFMap{{K: "level", V: "status"}})...)
			case 2:
				in = append(in, lib.ChunkMsg(lib.Msg{Csid: 2, Type: 5, Data: []byte{0, 0x26, 0x25, 0xa0}}, 128)...)
			case 3:
				in = append(in, lib.ChunkMsg(lib.Msg{Csid: 2, Type: 6, Data: []byte{0, 0x26, 0x25, 0xa0, 2}}, 128)...)
			case 4:
				in = append(in, lib.ChunkMsg(lib.Msg{Csid: 5, Type: 18, Data: flvio.FillAMF0ValsMalloc([]interface{}{"x", true})}, 128)...)
			case 5:
				in = append(in, cmd("_result", float64(2), nil)...)
			case 6:
				in = append(in, cmd("_result", float64(3), nil, float64(vf.U8("other")))...)
			case 7:
				in = append(in, cmd("_error", float64(2), nil, flvio.AMFMap{{K: "level", V: "error"}})...)
			case 8:
				in = append(in, cmd("_result", float64(2), nil, flvio.AMFMap{{K: "level", V: "status"}})...)
			}
		}
		return in
	}
	in := append(hello())
	in[1+9] = 1
	in = extra(in, "before connect", false)
	in = append(in, cmd("_result", float64(1), flvio.AMFMap{}, flvio.AMFMap{{K: "level", V: "status"}, {K: "code", V: "x"}})...)
	in = extra(in, "before createStream", true)
	sid := vf.U16("sid")
	in = append(in, cmd("_result", trans, nil, float64(sid))...)
	in = extra(in, "before onStatus", false)
	in = append(in, cmd("onStatus", float64(0), nil, flvio.AMFMap{{K: "level", V: "status"}, {K: "code", V: "y"}})...)
	u, _ := url.Parse("rtmp://host/app/stream")
	nc := &lib.FakeConn{In: lib.Chunked{B: in, K: 4096}}
	c, err := rtmp.NewClient().FromNetConn(nc, u, flags)
	vf.Assert(err == nil && c != nil, "the session is granted")
	vf.Assert(c.Publishing == pub, "direction")
	msgs, whole := lib.RefDechunk(nc.Out[3073:], 128)
	vf.Assert(whole, "whole messages")
	last := msgs[len(msgs)-1]
	v, perr := flvio.ParseAMFVals(last.Data, false)
	vf.Assert(perr == nil && len(v) >= 4, "last command")
	n, _ := v[0].(string)
	s, _ := v[3].(string)
	vf.Assert(n == []string{"play", "publish"}[b2i(pub)] && s == "stream", "asks for the stream")
	vf.Assert(last.Sid == uint32(sid), "on the stream the server created for it")
	code, _ := c.PubPlayOnStatusParams.GetString("code")
	vf.Assert(code == "y", "the status is the one of the stream")
	vf.Cover("done")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

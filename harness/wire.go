package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"
	"strings"

	"github.com/BurntSushi/toml"
	"github.com/fwhezfwhez/tcpx"
	"github.com/fwhezfwhez/tcpx/zsim"
	"github.com/golang/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"gopkg.in/yaml.v2"
)

// The wire format, written down independently of the package: length, id, header length, body length (big endian, 4
// bytes each), header (json), body. The length does not count itself.
func encode(id int32, header, body []byte) []byte {
	b := make([]byte, 16+len(header)+len(body))
	binary.BigEndian.PutUint32(b[0:], uint32(12+len(header)+len(body)))
	binary.BigEndian.PutUint32(b[4:], uint32(id))
	binary.BigEndian.PutUint32(b[8:], uint32(len(header)))
	binary.BigEndian.PutUint32(b[12:], uint32(len(body)))
	copy(b[16:], header)
	copy(b[16+len(header):], body)
	return b
}

type frame struct {
	raw    []byte
	id     int32
	header []byte
	body   []byte
	ok     bool // inner lengths consistent
	hl, bl uint32
}

func parseFrame(raw []byte) frame {
	f := frame{raw: raw}
	if len(raw) >= 8 {
		f.id = int32(binary.BigEndian.Uint32(raw[4:]))
	}
	if len(raw) < 16 {
		return f
	}
	f.hl, f.bl = binary.BigEndian.Uint32(raw[8:]), binary.BigEndian.Uint32(raw[12:])
	hl, bl := uint64(f.hl), uint64(f.bl)
	if 16+hl <= uint64(len(raw)) {
		f.header = raw[16 : 16+hl]
	}
	if 16+hl+bl != uint64(len(raw)) {
		return f
	}
	f.body = raw[16+hl:]
	f.ok = true
	return f
}

// parseStream cuts a byte stream into frames and a tail.
func parseStream(b []byte) (fs []frame, tail []byte) {
	for len(b) >= 4 {
		n := uint64(binary.BigEndian.Uint32(b))
		if uint64(len(b)) < 4+n {
			break
		}
		fs = append(fs, parseFrame(b[:4+n:4+n]))
		b = b[4+n:]
	}
	return fs, b
}

func hdrJSON(h map[string]interface{}) []byte {
	b, err := json.Marshal(h)
	if err != nil {
		panic(err)
	}
	return b
}

func sameJSON(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// Payload is the body type used with the structured marshallers.
type Payload struct {
	Tag  string `json:"tag" xml:"tag" toml:"tag" yaml:"tag"`
	N    int    `json:"n" xml:"n" toml:"n" yaml:"n"`
	Data string `json:"data" xml:"data" toml:"data" yaml:"data"`
}

var marshNames = []string{"json", "xml", "toml", "yaml", "protobuf"}

func marshaller(name string) tcpx.Marshaller {
	switch name {
	case "xml":
		return tcpx.XmlMarshaller{}
	case "toml":
		return tcpx.TomlMarshaller{}
	case "yaml":
		return tcpx.YamlMarshaller{}
	case "protobuf":
		return tcpx.ProtobufMarshaller{}
	case "json":
		return tcpx.JsonMarshaller{}
	}
	return nil
}

// refMarshal is the reference for what a body looks like on the wire.
func refMarshal(name string, v interface{}) []byte {
	var b []byte
	var err error
	switch name {
	case "xml":
		b, err = xml.Marshal(v)
	case "toml":
		var buf bytes.Buffer
		err = toml.NewEncoder(&buf).Encode(v)
		b = buf.Bytes()
	case "yaml":
		b, err = yaml.Marshal(v)
	case "protobuf":
		b, err = proto.Marshal(v.(proto.Message))
	default:
		b, err = json.Marshal(v)
	}
	if err != nil {
		panic(fmt.Sprint("reference marshal ", name, ": ", err))
	}
	return b
}

// value builds the Go value carried by a structured message.
func value(marsh, tag string, n int) interface{} {
	data := filler(uint64(n)*31+uint64(len(tag)), n)
	if marsh == "protobuf" {
		return &wrapperspb.StringValue{Value: tag + ":" + data}
	}
	return Payload{Tag: tag, N: n, Data: data}
}

func dest(marsh string) interface{} {
	if marsh == "protobuf" {
		return &wrapperspb.StringValue{}
	}
	return &Payload{}
}

func sameValue(marsh string, got, want interface{}) bool {
	if marsh == "protobuf" {
		a, ok := got.(*wrapperspb.StringValue)
		return ok && a.GetValue() == want.(*wrapperspb.StringValue).GetValue()
	}
	a, ok := got.(*Payload)
	return ok && *a == want.(Payload)
}

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func filler(seed uint64, n int) string {
	var b strings.Builder
	b.Grow(n)
	r := zsim.NewRand(seed)
	for b.Len()+8 <= n {
		x := r.Uint64()
		for k := 0; k < 8; k++ {
			b.WriteByte(alphabet[(x>>(8*k)&255)%62])
		}
	}
	for b.Len() < n {
		b.WriteByte(alphabet[r.Intn(62)])
	}
	return b.String()
}

func randBytes(seed uint64, n int) []byte {
	b := make([]byte, n)
	r := zsim.NewRand(seed)
	for i := 0; i < n; i += 8 {
		x := r.Uint64()
		for k := 0; k < 8 && i+k < n; k++ {
			b[i+k] = byte(x >> (8 * k))
		}
	}
	return b
}

func short(b []byte) string {
	if len(b) <= 48 {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%q...(%d bytes)", b[:40], len(b))
}

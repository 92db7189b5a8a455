package main

import (
	"bytes"
	"compress/gzip"
	"context"
	_ "embed"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unsafe"

	"github.com/grpc-ecosystem/grpc-gateway/v2/runtime"
	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

// Recorded data and conversations. golden.json.gz was written by this file's record function from
// the commit named in it: request histories in their wire forms, the answers they got, and what
// the key-value store held afterwards. Nothing of it is regenerated by a check.

//go:embed golden.json.gz
var goldenBytes []byte

type goldenCall struct {
	Method string          // full gRPC method name
	Req    []byte          // the request as protobuf
	Json   json.RawMessage // the request as JSON; empty where JSON does not carry it
	Model  []byte          // for policies in YAML, the request with the policy it describes
	Any    bool            // the answer is not judged
	Failed bool
	Resp   json.RawMessage // the answer, without times and with lists in order; texts of trees left out
}

type goldenCase struct {
	PolIds, Ids [][]byte
	Hostile     bool
	Calls       []goldenCall
	Store       [][2][]byte
	Times       map[string][2]int64 // by quoted policy id, or quoted policy id and tuple
}

type golden struct {
	Files []byte // descriptors of the API
	Cases []*goldenCase
}

var loadGolden = sync.OnceValue(func() *golden {
	g := &golden{}
	z, err := gzip.NewReader(bytes.NewReader(goldenBytes))
	if err == nil {
		err = json.NewDecoder(z).Decode(g)
	}
	if err != nil {
		panic("harness: golden data: " + err.Error())
	}
	return g
})

var goldenFiles = sync.OnceValue(func() *protoregistry.Files {
	var set descriptorpb.FileDescriptorSet
	if err := proto.Unmarshal(loadGolden().Files, &set); err != nil {
		panic("harness: " + err.Error())
	}
	files, err := protodesc.NewFiles(&set)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return files
})

func init() {
	checks["C26"] = check{level: "exploration",
		rule: "Recorded histories (made once with an earlier build and kept with the harness): the key-value contents they left are put into a store or a data directory, an instance is opened on it, everything is read back and queried against the model of the recorded history, and the history goes on, up to the deletion and re-creation of every policy. The recorded requests are also replayed as bytes over gRPC and as JSON over HTTP against a fresh instance, and the answers, decoded with the recorded message descriptions, are compared with the recorded ones. Non-trivial: the recorded store held at least one relationship; distinct by continuation and recording.",
		floors: map[string]int64{"stores opened": 300, "data directories opened": 60, "recorded creation times compared": 3000, "requests on recorded data": 10000, "policies re-created": 300,
			"gRPC answers compared": 3000, "HTTP answers compared": 3000},
		run: func(r *Run) {
			if p := os.Getenv("ZVERIF_RECORD"); p != "" {
				record(r, p)
				return
			}
			n := len(loadGolden().Cases)
			r.Cases(0, r.n(30, 300)*n, c26data)
			r.CasesW(1000000, r.n(2, 10)*n, 8, c26disk)
			r.CasesW(2000000, n, 8, c26wire)
			r.CasesW(3000000, n, 8, c26http)
		}}
}

func times(t *T, s Svc, w *World) map[string][2]int64 {
	out := map[string][2]int64{}
	for _, id := range w.ids() {
		resp, err := s.Do(t, &api.GetPolicyRequest{Id: id})
		if err != nil {
			t.Failf("GetPolicy: %v", err)
		}
		at := resp.(*api.GetPolicyResponse).GetRecord().GetCreatedAt()
		out[fmt.Sprintf("%q", id)] = [2]int64{at.GetSeconds(), int64(at.GetNanos())}
		resp, err = s.Do(t, &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()})
		if err != nil {
			t.Failf("FindRelationshipRecords: %v", err)
		}
		for _, r := range resp.(*api.FindRelationshipRecordsResponse).GetResult().GetRecords() {
			u, _ := tupleOf(r.GetRelationship())
			at := r.GetCreatedAt()
			out[fmt.Sprintf("%q %q", id, fmt.Sprint(u))] = [2]int64{at.GetSeconds(), int64(at.GetNanos())}
		}
	}
	return out
}

// plainAnswer is an answer as a JSON tree, without creation times and without the texts of
// explanations, expansions and dumps, which may be laid out in several ways.
func plainAnswer(m proto.Message) (any, error) {
	text, err := protojson.MarshalOptions{EmitUnpopulated: true}.Marshal(m)
	if err != nil {
		return nil, err
	}
	var v any
	if err := json.Unmarshal(text, &v); err != nil {
		return nil, err
	}
	return plainTree(v), nil
}

func plainTree(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k, c := range x {
			switch k {
			case "createdAt", "dot", "goalTree":
				if _, ok := c.(string); ok || k == "createdAt" {
					delete(x, k)
					continue
				}
			}
			x[k] = plainTree(c)
		}
	case []any:
		texts := make([]string, len(x))
		for i := range x {
			x[i] = plainTree(x[i])
			b, _ := json.Marshal(x[i])
			texts[i] = string(b)
		}
		sort.Sort(byText{texts, x})
	}
	return v
}

type byText struct {
	k []string
	v []any
}

func (b byText) Len() int           { return len(b.k) }
func (b byText) Less(i, j int) bool { return b.k[i] < b.k[j] }
func (b byText) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.v[i], b.v[j] = b.v[j], b.v[i]
}

func requestOf(op string) proto.Message {
	for _, m := range []proto.Message{&api.CreatePolicyRequest{}, &api.UpdatePolicyRequest{}, &api.DeletePolicyRequest{}, &api.GetPolicyRequest{},
		&api.ListPolicyIdsRequest{}, &api.SetRelationshipRequest{}, &api.DeleteRelationshipRequest{}, &api.GetRelationshipRequest{},
		&api.FindRelationshipRecordsRequest{}, &api.DeleteRelationshipsRequest{}, &api.CheckRequest{}, &api.ExplainCheckRequest{},
		&api.ExpandRequest{}, &api.DumpRelationshipsRequest{}} {
		if opName(m) == op {
			return m
		}
	}
	panic("harness: unknown operation " + op)
}

// ---------------------------------------------------------------- recording

func record(r *Run, path string) {
	g := &golden{}
	seen := map[string]bool{}
	var set descriptorpb.FileDescriptorSet
	var add func(f protoreflect.FileDescriptor)
	add = func(f protoreflect.FileDescriptor) {
		if seen[f.Path()] {
			return
		}
		seen[f.Path()] = true
		for i := 0; i < f.Imports().Len(); i++ {
			add(f.Imports().Get(i).FileDescriptor)
		}
		set.File = append(set.File, protodesc.ToFileDescriptorProto(f))
	}
	add((&api.CreatePolicyRequest{}).ProtoReflect().Descriptor().ParentFile())
	add((&api.CheckRequest{}).ProtoReflect().Descriptor().ParentFile())
	g.Files, _ = proto.MarshalOptions{Deterministic: true}.Marshal(&set)
	r.CasesW(0, 60, 1, func(t *T) {
		kv := newMapKV()
		s := mustEmbedded(t, kv)
		w := newWorld()
		c := &goldenCase{Hostile: t.idx%3 != 0}
		h := newHist(t, w, c.Hostile, allWeights)
		for _, p := range h.polIds {
			c.PolIds = append(c.PolIds, []byte(p))
		}
		for _, p := range h.ids {
			c.Ids = append(c.Ids, []byte(p))
		}
		issue := func(req proto.Message) {
			call := goldenCall{Method: "/sourcenetwork.zanzi.api." + serviceOf(req) + "/" + opName(req)}
			var err error
			if call.Req, err = (proto.MarshalOptions{Deterministic: true}).Marshal(req); err != nil {
				return // not a message of the wire
			}
			if text, err := protojson.Marshal(req); err == nil {
				call.Json = text
			}
			e := w.clone().Apply(req)
			if e.err == errAny || e.err == errMay {
				return
			}
			call.Any = e.skip
			resp, err := step(t, s, w, req)
			call.Failed = err != nil
			if err == nil {
				call.Model = structured(req)
				v, err := plainAnswer(resp)
				if err != nil {
					call.Any = true
				} else {
					call.Resp, _ = json.Marshal(v)
				}
			}
			c.Calls = append(c.Calls, call)
		}
		for n := 40 + t.Intn(50); len(c.Calls) < n; {
			issue(h.next())
		}
		for len(w.pols) < 2 && len(c.Calls) < 200 {
			issue(h.make("create"))
		}
		for i := 0; i < 25; i++ {
			issue(h.make("set"))
		}
		for _, id := range w.ids() {
			issue(&api.GetPolicyRequest{Id: id})
			issue(&api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()})
		}
		issue(&api.ListPolicyIdsRequest{})
		c.Times = times(t, s, w)
		m := kv.snapshot()
		for _, k := range sortedKeys(m) {
			c.Store = append(c.Store, [2][]byte{[]byte(k), m[k]})
		}
		g.Cases = append(g.Cases, c)
	})
	var b bytes.Buffer
	z, _ := gzip.NewWriterLevel(&b, 9)
	if err := json.NewEncoder(z).Encode(g); err != nil {
		panic(err)
	}
	z.Close()
	if err := os.WriteFile(path, b.Bytes(), 0o644); err != nil {
		panic(err)
	}
	fmt.Println("recorded", len(g.Cases), "histories,", b.Len(), "bytes")
}

// structured is a request with a policy in YAML, with the policy as a message instead.
func structured(req proto.Message) []byte {
	c := proto.Clone(req)
	var d *api.PolicyDefinition
	switch r := c.(type) {
	case *api.CreatePolicyRequest:
		d = r.PolicyDefinition
	case *api.UpdatePolicyRequest:
		d = r.PolicyDefinition
	}
	y, ok := d.GetDefinition().(*api.PolicyDefinition_PolicyYaml)
	if !ok {
		return nil
	}
	p, ok := yamlPolicies.Load(y.PolicyYaml)
	if !ok {
		panic("harness: unknown document")
	}
	d.Definition = &api.PolicyDefinition_Policy{Policy: p.(*domain.Policy)}
	b, err := (proto.MarshalOptions{Deterministic: true}).Marshal(c)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

// ---------------------------------------------------------------- checks

// recorded is the case's recording and the model after its history.
func recorded(t *T) (*goldenCase, *World) {
	g := loadGolden()
	c := g.Cases[t.idx%len(g.Cases)]
	w := newWorld()
	for _, call := range c.Calls {
		req := requestOf(call.Method[strings.LastIndex(call.Method, "/")+1:])
		if err := proto.Unmarshal(call.Req, req); err != nil {
			t.Failf("a recorded %s request does not decode: %v", call.Method, err)
		}
		if call.Failed {
			continue
		}
		if len(call.Model) > 0 {
			proto.Unmarshal(call.Model, req)
		}
		w.Apply(req)
	}
	return c, w
}

func c26data(t *T) {
	c, w := recorded(t)
	kv := newMapKV()
	for _, e := range c.Store {
		kv.Set(e[0], e[1])
	}
	t.Count("stores opened", 1)
	goOn(t, mustEmbedded(t, kv), c, w)
}

func c26disk(t *T) {
	c, w := recorded(t)
	dir, err := os.MkdirTemp(t.run.Scratch, "golden")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	data := filepath.Join(dir, "data")
	kv, err := rcdb.NewLevelDB(data, "zanzi.db")
	if err != nil {
		panic("harness: " + err.Error())
	}
	for _, e := range c.Store {
		if err := kv.Set(e[0], e[1]); err != nil {
			panic("harness: " + err.Error())
		}
	}
	closeKV(kv)
	z, err := zanzi.New(zanzi.WithLogger(&types.NoopLogger{}), zanzi.WithDefaultKVStore(data))
	if err != nil {
		t.Failf("a data directory with recorded data does not open: %v", err)
	}
	defer closeDisk(&z)
	t.Count("data directories opened", 1)
	goOn(t, fromZanzi(z), c, w)
}

func closeKV(kv rcdb.KVStore) { findDisk(reflect.ValueOf(kv), map[unsafe.Pointer]bool{}, 0) }

// goOn reads recorded data back and continues its history.
func goOn(t *T, s Svc, c *goldenCase, w *World) {
	sweep(t, s, w)
	for k, v := range times(t, s, w) {
		if c.Times[k] != v {
			t.Failf("the creation time of %s is %v, %v was recorded", k, v, c.Times[k])
		}
		t.Count("recorded creation times compared", 1)
	}
	rels := 0
	for _, st := range w.pols {
		rels += len(st.tuples)
	}
	h := newHist(t, w, c.Hostile, allWeights)
	h.polIds, h.ids = nil, nil
	for _, b := range c.PolIds {
		h.polIds = append(h.polIds, string(b))
	}
	for _, b := range c.Ids {
		h.ids = append(h.ids, string(b))
	}
	// first only questions
	for i := 0; i < 15; i++ {
		step(t, s, w, h.make(pick(t, []string{"check", "check", "check", "explain", "expand", "dump", "find", "get"})))
		t.Count("requests on recorded data", 1)
	}
	for i, n := 0, t.Intn(40); i < n; i++ {
		step(t, s, w, h.next())
		t.Count("requests on recorded data", 1)
	}
	sweep(t, s, w)
	for _, id := range shuffled(t, w.ids()) {
		st := w.pols[id]
		before, def := st.list(), st.def
		step(t, s, w, &api.DeletePolicyRequest{Id: id})
		step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: proto.Clone(def).(*domain.Policy)}}})
		for _, u := range before {
			step(t, s, w, &api.GetRelationshipRequest{PolicyId: id, Relationship: u.proto()})
		}
		t.Count("policies re-created", 1)
	}
	sweep(t, s, w)
	if rels > 0 {
		t.Nontrivial(fmt.Sprint(t.idx))
		t.Sample(map[string]any{"recording": t.idx % len(loadGolden().Cases), "recorded relationships": rels, "store entries": len(c.Store)})
	}
}

// ---------------------------------------------------------------- wire

type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error) { return *v.(*[]byte), nil }
func (rawCodec) Unmarshal(b []byte, v any) error {
	*v.(*[]byte) = append([]byte{}, b...)
	return nil
}
func (rawCodec) Name() string { return "proto" }

func c26wire(t *T) {
	c, _ := recorded(t)
	addr, err := startServer(newMapKV())
	if err != nil {
		panic("harness: cannot serve: " + err.Error())
	}
	cl, err := dialRemote(addr)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer cl.conn.Close()
	for i, call := range c.Calls {
		t.Log("%s %q", call.Method, call.Req)
		d, err := goldenFiles().FindDescriptorByName(protoreflect.FullName(strings.ReplaceAll(strings.TrimPrefix(call.Method, "/"), "/", ".")))
		if err != nil {
			panic("harness: " + err.Error())
		}
		var out []byte
		in := enter(t, "grpc "+call.Method)
		err = cl.conn.Invoke(context.Background(), call.Method, &call.Req, &out, grpc.ForceCodec(rawCodec{}))
		leave(in)
		if call.Any {
			continue
		}
		if (err != nil) != call.Failed {
			t.Failf("recorded call %d %s %q: failed=%v, recorded failed=%v: %v", i, call.Method, call.Req, err != nil, call.Failed, err)
		}
		t.Count("gRPC answers compared", 1)
		if err != nil {
			continue
		}
		m := dynamicpb.NewMessage(d.(protoreflect.MethodDescriptor).Output())
		if err := proto.Unmarshal(out, m); err != nil {
			t.Failf("the answer to recorded call %d %s does not decode with the recorded message description: %v", i, call.Method, err)
		}
		if n := unknownFields(m); n != "" {
			t.Count("answers with new fields", 1)
		}
		v, err := plainAnswer(m)
		if err != nil {
			t.Failf("the answer to recorded call %d %s is malformed: %v", i, call.Method, err)
		}
		sameAnswer(t, i, call, v)
	}
}

func unknownFields(m protoreflect.Message) string {
	if len(m.GetUnknown()) > 0 {
		return string(m.Descriptor().FullName())
	}
	return ""
}

func sameAnswer(t *T, i int, call goldenCall, got any) {
	var want any
	if err := json.Unmarshal(call.Resp, &want); err != nil {
		panic("harness: " + err.Error())
	}
	if !within(want, got) {
		b, _ := json.Marshal(got)
		t.Failf("recorded call %d %s is answered differently\nrequest: %q\nrecorded: %s\n     got: %s", i, call.Method, call.Req, trunc(string(call.Resp), 1500), trunc(string(b), 1500))
	}
}

// within compares a recorded answer with another one, which may have fields the recorded has not.
func within(want, got any) bool {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return false
		}
		for k, v := range w {
			if !within(v, g[k]) {
				return false
			}
		}
		return true
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !within(w[i], g[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(want, got)
}

func c26http(t *T) {
	c, _ := recorded(t)
	z, err := zanzi.New(zanzi.WithLogger(&types.NoopLogger{}), zanzi.WithKVStore(newMapKV()))
	if err != nil {
		t.Failf("zanzi.New: %v", err)
	}
	mux := runtime.NewServeMux()
	e1 := api.RegisterPolicyServiceHandlerServer(context.Background(), mux, z.GetPolicyService())
	e2 := api.RegisterRelationGraphHandlerServer(context.Background(), mux, z.GetRelationGraphService())
	if err := errors.Join(e1, e2); err != nil {
		t.Failf("the HTTP gateway cannot be registered: %v", err)
	}
	via := fromZanzi(z)
	for i, call := range c.Calls {
		if len(call.Json) == 0 { // JSON does not carry it
			req := requestOf(call.Method[strings.LastIndex(call.Method, "/")+1:])
			if err := proto.Unmarshal(call.Req, req); err == nil {
				via.Do(t, req)
			}
			continue
		}
		t.Log("%s %s", call.Method, call.Json)
		in := enter(t, "http "+call.Method)
		r := httptest.NewRequest("POST", call.Method, bytes.NewReader(call.Json))
		r.Header.Set("Content-Type", "application/json")
		w := httptest.NewRecorder()
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Failf("the HTTP request %s panicked: %v\nbody: %s", call.Method, p, trunc(string(call.Json), 2000))
				}
			}()
			mux.ServeHTTP(w, r)
		}()
		leave(in)
		if call.Any {
			continue
		}
		if (w.Code != http.StatusOK) != call.Failed {
			t.Failf("recorded call %d %s %s: status %d, recorded failed=%v: %s", i, call.Method, call.Json, w.Code, call.Failed, trunc(w.Body.String(), 500))
		}
		t.Count("HTTP answers compared", 1)
		if w.Code != http.StatusOK {
			continue
		}
		var v any
		if err := json.Unmarshal(w.Body.Bytes(), &v); err != nil {
			t.Failf("the answer to recorded call %d %s is not JSON: %v", i, call.Method, err)
		}
		sameAnswer(t, i, call, plainTree(v))
	}
}

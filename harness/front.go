package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/grpc-ecosystem/grpc-gateway/v2/runtime"
	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

func init() {
	checks["C22"] = check{level: "exploration",
		rule:   histRule + "Every request is issued by running the real zanzi-cli binary against the repository's gRPC server, as a JSON file, on standard input, as flags, or as a file completed by flags; what it prints is decoded and judged, together with its exit status, against the model. Requests whose text no JSON document or argument can carry go over gRPC. Non-trivial: at least ten operations were carried by the client in the case; distinct by final state.",
		floors: map[string]int64{"runs of the client": 3000, "requests by flags": 1000, "requests by file": 1000, "requests by both": 100, "failures reported": 150, "structured policies by flags": 60, "broken requests": 60, "values overridden by flags": 50, "cases with all fourteen operations": 20},
		run:    func(r *Run) { r.CasesW(0, r.n(200, 2500), 8, c22) }}
	checks["C23"] = check{level: "exploration",
		rule:   histRule + "The history is issued as HTTP requests with JSON bodies to the HTTP gateway of the api package, registered on the services of the instance directly in half of the cases and in front of the gRPC server in the others; every answer is decoded and judged against the model. Non-trivial: all fourteen operations were answered successfully; distinct by final state.",
		floors: map[string]int64{"HTTP requests": 20000, "HTTP failures": 2000, "empty bodies": 1000, "broken requests": 1000, "cases with all fourteen operations": 100},
		run:    func(r *Run) { r.CasesW(0, r.n(3500, 20000), 8, c23) }}
}

// responseOf returns an empty response message of the operation.
func responseOf(req proto.Message) proto.Message {
	switch req.(type) {
	case *api.CreatePolicyRequest:
		return &api.CreatePolicyResponse{}
	case *api.UpdatePolicyRequest:
		return &api.UpdatePolicyResponse{}
	case *api.DeletePolicyRequest:
		return &api.DeletePolicyResponse{}
	case *api.GetPolicyRequest:
		return &api.GetPolicyResponse{}
	case *api.ListPolicyIdsRequest:
		return &api.ListPolicyIdsResponse{}
	case *api.SetRelationshipRequest:
		return &api.SetRelationshipResponse{}
	case *api.DeleteRelationshipRequest:
		return &api.DeleteRelationshipResponse{}
	case *api.GetRelationshipRequest:
		return &api.GetRelationshipResponse{}
	case *api.FindRelationshipRecordsRequest:
		return &api.FindRelationshipRecordsResponse{}
	case *api.DeleteRelationshipsRequest:
		return &api.DeleteRelationshipsResponse{}
	case *api.CheckRequest:
		return &api.CheckResponse{}
	case *api.ExplainCheckRequest:
		return &api.ExplainCheckResponse{}
	case *api.ExpandRequest:
		return &api.ExpandResponse{}
	case *api.DumpRelationshipsRequest:
		return &api.DumpRelationshipResponse{}
	}
	panic(fmt.Sprintf("harness: unknown request %T", req))
}

func serviceOf(req proto.Message) string {
	switch req.(type) {
	case *api.CheckRequest, *api.ExplainCheckRequest, *api.ExpandRequest, *api.DumpRelationshipsRequest:
		return "RelationGraph"
	}
	return "PolicyService"
}

func kebab(s string) string {
	var b strings.Builder
	for i, c := range s {
		if unicode.IsUpper(c) && i > 0 {
			b.WriteByte('-')
		}
		b.WriteRune(unicode.ToLower(c))
	}
	return strings.ReplaceAll(b.String(), "_", "-")
}

// ---------------------------------------------------------------- command line client

type cli struct {
	bin  string
	addr string
	dir  string
	via  *remote // for requests no command line can carry
	n    int
}

// flags renders the fields of a message as command line flags. It reports false when a field has no
// flag or its value does not fit an argument.
func flags(t *T, prefix string, m protoreflect.Message, out *[]string) bool {
	ok := true
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		name := prefix + strings.ReplaceAll(string(f.Name()), "_", "-")
		switch {
		case f.IsMap():
			v.Map().Range(func(k protoreflect.MapKey, e protoreflect.Value) bool {
				pair := k.String() + "=" + e.String()
				if strings.Count(pair, "=") != 1 || strings.ContainsAny(pair, "\",\x00\r\n") || !utf8.ValidString(pair) {
					ok = false
				}
				*out = append(*out, "--"+name+"="+pair)
				return ok
			})
		case f.IsList():
			for i := 0; i < v.List().Len() && ok; i++ {
				text, err := protojson.Marshal(v.List().Get(i).Message().Interface())
				if err != nil || len(text) > 20000 {
					ok = false
				}
				*out = append(*out, "--"+name+"="+string(text))
			}
		case f.Kind() == protoreflect.MessageKind:
			if f.Message().Fields().Len() == 0 {
				ok = false
				return false
			}
			before := len(*out)
			ok = flags(t, name+"-", v.Message(), out)
			// the flags of its fields choose an alternative as well
			if f.ContainingOneof() != nil && (len(*out) == before || t.Chance(50)) {
				*out = append(*out, "--"+name)
			}
		case f.Kind() == protoreflect.StringKind:
			if strings.ContainsRune(v.String(), 0) || !utf8.ValidString(v.String()) {
				ok = false
			}
			*out = append(*out, "--"+name+"="+v.String())
		case f.Kind() == protoreflect.BytesKind:
			*out = append(*out, "--"+name+"="+base64.StdEncoding.EncodeToString(v.Bytes()))
		case f.Kind() == protoreflect.EnumKind:
			d := f.Enum().Values().ByNumber(v.Enum())
			if d == nil {
				ok = false
				return false
			}
			*out = append(*out, "--"+name+"="+string(d.Name()))
		default:
			ok = false
		}
		return ok
	})
	return ok
}

func (c *cli) Do(t *T, req proto.Message) (proto.Message, error) {
	w := enter(t, "zanzi-cli "+opName(req))
	defer leave(w)
	c.n++
	text, jerr := protojson.MarshalOptions{UseProtoNames: t.Chance(50), Multiline: t.Chance(50)}.Marshal(req)
	args := []string{kebab(serviceOf(req)), kebab(opName(req)), "--server-addr", c.addr, "--timeout", "60s"}
	var fl []string
	byFlags := flags(t, "", req.ProtoReflect(), &fl)
	var stdin []byte
	malformed := false
	file := filepath.Join(c.dir, fmt.Sprintf("req%d.json", c.n))
	switch {
	case jerr != nil && !byFlags:
		t.Count("requests no command line carries", 1)
		return c.via.dispatch(context.Background(), req)
	case byFlags && (jerr != nil || t.Chance(50)):
		args = append(args, shuffledFlags(t, fl)...)
		t.Count("requests by flags", 1)
		if strings.Contains(strings.Join(fl, " "), "-resources={") {
			t.Count("structured policies by flags", 1)
		}
	default:
		if t.Chance(30) { // part of it by flags
			rest := proto.Clone(req)
			var part []string
			rest.ProtoReflect().Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
				if f.Kind() != protoreflect.MessageKind && f.Message() == nil && t.Chance(60) {
					one := rest.ProtoReflect().New()
					one.Set(f, v)
					var p []string
					if flags(t, "", one, &p) {
						part = append(part, p...)
						rest.ProtoReflect().Clear(f)
						if f.Kind() == protoreflect.StringKind && t.Chance(40) {
							rest.ProtoReflect().Set(f, protoreflect.ValueOfString("elsewhere"))
							t.Count("values overridden by flags", 1)
						}
					}
				}
				return true
			})
			if b, err := protojson.Marshal(rest); err == nil && len(part) > 0 {
				text = b
				args = append(args, part...)
				t.Count("requests by both", 1)
			}
		}
		if t.Chance(4) {
			text = broken(t, text)
			malformed = true
		}
		if t.Chance(40) {
			stdin = text
			args = append(args, "--request-file", "-")
		} else {
			if err := os.WriteFile(file, text, 0o600); err != nil {
				panic("harness: " + err.Error())
			}
			defer os.Remove(file)
			args = append(args, "-f", file)
		}
		t.Count("requests by file", 1)
	}
	if t.Chance(30) {
		args = append(args, "-o", "prettyjson")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.bin, args...)
	cmd.Env = []string{"HOME=" + c.dir, "PATH=/usr/bin:/bin"}
	cmd.Dir = c.dir
	cmd.Stdin = bytes.NewReader(stdin)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		t.Failf("zanzi-cli %q did not end within two minutes", args)
	}
	t.Count("runs of the client", 1)
	if malformed {
		if err == nil {
			t.Failf("zanzi-cli %q succeeded with the broken request %q: %s", args, trunc(string(text), 1000), trunc(so.String(), 1000))
		}
		t.Count("broken requests", 1)
		// it must have had no effect: the request is issued for real now
		return c.Do(t, req)
	}
	if err != nil {
		if strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "goroutine 1 [running]") {
			t.Failf("zanzi-cli %q crashed: %s", args, trunc(se.String(), 3000))
		}
		if strings.Contains(se.String(), "unknown flag") || strings.Contains(se.String(), "unknown command") {
			t.Failf("zanzi-cli %q does not know the request: %s", args, trunc(se.String(), 1000))
		}
		t.Count("failures reported", 1)
		return nil, errors.New(trunc(se.String(), 500))
	}
	resp := responseOf(req)
	if err := protojson.Unmarshal(so.Bytes(), resp); err != nil {
		t.Failf("zanzi-cli %q printed what is not the response in JSON: %v\n%s", args, err, trunc(so.String(), 2000))
	}
	return resp, nil
}

// shuffledFlags reorders flags and keeps the order of repeated ones.
func shuffledFlags(t *T, fl []string) []string {
	var single, repeated []string
	for _, f := range fl {
		if strings.Contains(f, "-resources=") {
			repeated = append(repeated, f)
		} else {
			single = append(single, f)
		}
	}
	return append(shuffled(t, single), repeated...)
}

// broken returns what is left of a JSON document which was cut off, followed by nothing or by junk
// which does not complete it.
func broken(t *T, text []byte) []byte {
	cut := text[:1+t.Intn(max(1, len(text)-2))]
	out := append([]byte{}, cut...)
	if t.Chance(40) {
		out = append(out, pick(t, []string{"\x01", "{", ":", ",,", "["})...)
	}
	if json.Valid(out) || len(bytes.TrimSpace(out)) == 0 {
		return []byte("{\"policy_id\"")
	}
	return out
}

func c22(t *T) {
	dir, err := os.MkdirTemp(t.run.Scratch, "cli")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	addr, err := startServer(rcdb.NewMemKV())
	if err != nil {
		panic("harness: cannot serve: " + err.Error())
	}
	via, err := dialRemote(addr)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer via.conn.Close()
	c := &cli{bin: filepath.Join(filepath.Dir(t.run.Scratch), "zanzi-cli"), addr: addr, dir: dir, via: via}
	frontHistory(t, c, 50+t.Intn(50))
}

// frontHistory issues a history through a front end and judges every answer.
func frontHistory(t *T, s Svc, n int) {
	w := newWorld()
	h := newHist(t, w, t.Chance(40), allWeights)
	h.junkPct = 8
	ok := map[string]bool{}
	issue := func(req proto.Message) {
		if _, err := step(t, s, w, req); err == nil {
			ok[opName(req)] = true
		}
	}
	for i := 0; i < n; i++ {
		issue(h.next())
		if t.Chance(6) {
			req := h.next()
			proto.Reset(req)
			issue(req)
		}
	}
	for _, op := range []string{"create", "set", "get", "find", "check", "explain", "expand", "dump", "del", "delmany", "update", "getpol", "list", "delpol"} {
		issue(h.make(op))
	}
	for _, id := range w.ids() {
		issue(&api.GetPolicyRequest{Id: id})
		issue(&api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()})
	}
	issue(&api.ListPolicyIdsRequest{})
	if len(ok) == 14 {
		t.Count("cases with all fourteen operations", 1)
	}
	if len(ok) >= 10 {
		t.Nontrivial(w.render())
		t.Sample(map[string]any{"requests": n, "operations": len(ok), "last": t.trace[len(t.trace)-1]})
	}
}

// ---------------------------------------------------------------- HTTP gateway

type gateway struct {
	mux *runtime.ServeMux
	via Svc // for requests JSON cannot carry
}

func (g *gateway) Do(t *T, req proto.Message) (proto.Message, error) {
	text, err := protojson.MarshalOptions{UseProtoNames: t.Chance(50), EmitUnpopulated: t.Chance(20)}.Marshal(req)
	if err != nil {
		t.Count("requests JSON does not carry", 1)
		return g.via.Do(t, req)
	}
	c := enter(t, "http "+opName(req))
	defer leave(c)
	path := "/sourcenetwork.zanzi.api." + serviceOf(req) + "/" + opName(req)
	malformed := t.Chance(4)
	if malformed {
		text = broken(t, text)
	} else if proto.Size(req) == 0 && t.Chance(60) {
		text = nil
		t.Count("empty bodies", 1)
	}
	r := httptest.NewRequest("POST", path, bytes.NewReader(text))
	r.Header.Set("Content-Type", "application/json")
	w := httptest.NewRecorder()
	func() {
		defer func() {
			if p := recover(); p != nil {
				t.Failf("the HTTP request %s panicked: %v\nbody: %s", path, p, trunc(string(text), 2000))
			}
		}()
		g.mux.ServeHTTP(w, r)
	}()
	t.Count("HTTP requests", 1)
	if malformed {
		if w.Code == http.StatusOK {
			t.Failf("HTTP %s succeeded with the broken body %q: %s", path, trunc(string(text), 1000), trunc(w.Body.String(), 1000))
		}
		t.Count("broken requests", 1)
		// it must have had no effect: the request is issued for real now
		return g.Do(t, req)
	}
	if w.Code != http.StatusOK {
		if w.Code == http.StatusNotFound && strings.Contains(w.Body.String(), "Not Found") || w.Code == http.StatusNotImplemented {
			t.Failf("%s is not reachable over HTTP: %d %s", opName(req), w.Code, trunc(w.Body.String(), 500))
		}
		t.Count("HTTP failures", 1)
		return nil, fmt.Errorf("status %d: %s", w.Code, trunc(w.Body.String(), 500))
	}
	resp := responseOf(req)
	if err := protojson.Unmarshal(w.Body.Bytes(), resp); err != nil {
		t.Failf("the HTTP answer to %s is not the response in JSON: %v\n%s", opName(req), err, trunc(w.Body.String(), 2000))
	}
	return resp, nil
}

func c23(t *T) {
	z, err := zanzi.New(zanzi.WithLogger(&types.NoopLogger{}), zanzi.WithKVStore(rcdb.NewMemKV()))
	if err != nil {
		t.Failf("zanzi.New: %v", err)
	}
	ctx := context.Background()
	g := &gateway{mux: runtime.NewServeMux()}
	if t.Chance(50) {
		g.via = fromZanzi(z)
		e1 := api.RegisterPolicyServiceHandlerServer(ctx, g.mux, z.GetPolicyService())
		e2 := api.RegisterRelationGraphHandlerServer(ctx, g.mux, z.GetRelationGraphService())
		if err := errors.Join(e1, e2); err != nil {
			t.Failf("the HTTP gateway cannot be registered: %v", err)
		}
		t.Count("cases in front of the services", 1)
	} else {
		addr, err := serve(z)
		if err != nil {
			panic("harness: cannot serve: " + err.Error())
		}
		rem, err := dialRemote(addr)
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer rem.conn.Close()
		g.via = rem
		e1 := api.RegisterPolicyServiceHandler(ctx, g.mux, rem.conn)
		e2 := api.RegisterRelationGraphHandler(ctx, g.mux, rem.conn)
		if err := errors.Join(e1, e2); err != nil {
			t.Failf("the HTTP gateway cannot be registered: %v", err)
		}
		t.Count("cases in front of the gRPC server", 1)
	}
	frontHistory(t, g, 60+t.Intn(60))
}

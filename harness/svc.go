package main

import (
	"context"
	"fmt"
	"net"
	"runtime/debug"
	"strings"
	"sync/atomic"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/proto"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/server"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

// Svc issues one request and returns its response. All fourteen operations go through it.
type Svc interface {
	Do(t *T, req proto.Message) (proto.Message, error)
}

type svcFunc func(t *T, req proto.Message) (proto.Message, error)

func (f svcFunc) Do(t *T, req proto.Message) (proto.Message, error) { return f(t, req) }

func opName(req proto.Message) string {
	n := string(req.ProtoReflect().Descriptor().Name())
	return strings.TrimSuffix(n, "Request")
}

// ---------------------------------------------------------------- embedded

type embedded struct {
	ps api.PolicyServiceServer
	rg api.RelationGraphServer
}

// textLogger renders every message it is given and throws the text away, as a logger at DEBUG
// level would read the values it is handed.
type textLogger struct{ n *atomic.Int64 }

func (l textLogger) Errorf(msg string, args ...any) { l.n.Add(int64(len(fmt.Sprintf(msg, args...)))) }
func (l textLogger) Warnf(msg string, args ...any)  { l.n.Add(int64(len(fmt.Sprintf(msg, args...)))) }
func (l textLogger) Infof(msg string, args ...any)  { l.n.Add(int64(len(fmt.Sprintf(msg, args...)))) }
func (l textLogger) Debugf(msg string, args ...any) { l.n.Add(int64(len(fmt.Sprintf(msg, args...)))) }

var logged atomic.Int64

// logger is silent mostly and a textLogger in some cases.
func logger(t *T, pct int) types.Logger {
	if t != nil && t.Chance(pct) {
		return textLogger{&logged}
	}
	return &types.NoopLogger{}
}

func newEmbedded(t *T, kv rcdb.KVStore) (*embedded, error) {
	z, err := zanzi.New(zanzi.WithLogger(logger(t, 3)), zanzi.WithKVStore(kv))
	if err != nil {
		return nil, err
	}
	return &embedded{z.GetPolicyService(), z.GetRelationGraphService()}, nil
}

func mustEmbedded(t *T, kv rcdb.KVStore) *embedded {
	e, err := newEmbedded(t, kv)
	if err != nil {
		t.Failf("zanzi.New: %v", err)
	}
	return e
}

func fromZanzi(z zanzi.Zanzi) *embedded {
	return &embedded{z.GetPolicyService(), z.GetRelationGraphService()}
}

func (e *embedded) dispatch(ctx context.Context, req proto.Message) (proto.Message, error) {
	switch r := req.(type) {
	case *api.CreatePolicyRequest:
		return fix(e.ps.CreatePolicy(ctx, r))
	case *api.UpdatePolicyRequest:
		return fix(e.ps.UpdatePolicy(ctx, r))
	case *api.DeletePolicyRequest:
		return fix(e.ps.DeletePolicy(ctx, r))
	case *api.GetPolicyRequest:
		return fix(e.ps.GetPolicy(ctx, r))
	case *api.ListPolicyIdsRequest:
		return fix(e.ps.ListPolicyIds(ctx, r))
	case *api.SetRelationshipRequest:
		return fix(e.ps.SetRelationship(ctx, r))
	case *api.DeleteRelationshipRequest:
		return fix(e.ps.DeleteRelationship(ctx, r))
	case *api.GetRelationshipRequest:
		return fix(e.ps.GetRelationship(ctx, r))
	case *api.FindRelationshipRecordsRequest:
		return fix(e.ps.FindRelationshipRecords(ctx, r))
	case *api.DeleteRelationshipsRequest:
		return fix(e.ps.DeleteRelationships(ctx, r))
	case *api.CheckRequest:
		return fix(e.rg.Check(ctx, r))
	case *api.ExplainCheckRequest:
		return fix(e.rg.ExplainCheck(ctx, r))
	case *api.ExpandRequest:
		return fix(e.rg.Expand(ctx, r))
	case *api.DumpRelationshipsRequest:
		return fix(e.rg.DumpRelationships(ctx, r))
	}
	panic(fmt.Sprintf("harness: unknown request %T", req))
}

func fix[M proto.Message](m M, err error) (proto.Message, error) {
	if err != nil {
		return nil, err
	}
	return m, nil
}

// opPanic is what a panic inside an operation is turned into.
type opPanic struct {
	val   any
	stack string
}

func (p *opPanic) Error() string { return fmt.Sprintf("panic: %v", p.val) }

func (e *embedded) Do(t *T, req proto.Message) (resp proto.Message, err error) {
	c := enter(t, opName(req))
	defer leave(c)
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(caseFailure); ok {
				panic(p)
			}
			resp, err = nil, &opPanic{p, trunc(string(debug.Stack()), 6000)}
		}
	}()
	return e.dispatch(context.Background(), req)
}

// noPanic reports a panic of any operation as a violation.
func noPanic(t *T, req proto.Message, err error) {
	if p, ok := err.(*opPanic); ok {
		t.Failf("%s panicked: %v\nrequest: %v\n%s", opName(req), p.val, req, p.stack)
	}
}

// ---------------------------------------------------------------- gRPC

type remote struct {
	conn *grpc.ClientConn
	ps   api.PolicyServiceClient
	rg   api.RelationGraphClient
}

func dialRemote(addr string) (*remote, error) {
	conn, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(64<<20)))
	if err != nil {
		return nil, err
	}
	return &remote{conn, api.NewPolicyServiceClient(conn), api.NewRelationGraphClient(conn)}, nil
}

func (e *remote) Do(t *T, req proto.Message) (proto.Message, error) {
	c := enter(t, "grpc "+opName(req))
	defer leave(c)
	return e.dispatch(context.Background(), req)
}

func (e *remote) dispatch(ctx context.Context, req proto.Message) (proto.Message, error) {
	switch r := req.(type) {
	case *api.CreatePolicyRequest:
		return fix(e.ps.CreatePolicy(ctx, r))
	case *api.UpdatePolicyRequest:
		return fix(e.ps.UpdatePolicy(ctx, r))
	case *api.DeletePolicyRequest:
		return fix(e.ps.DeletePolicy(ctx, r))
	case *api.GetPolicyRequest:
		return fix(e.ps.GetPolicy(ctx, r))
	case *api.ListPolicyIdsRequest:
		return fix(e.ps.ListPolicyIds(ctx, r))
	case *api.SetRelationshipRequest:
		return fix(e.ps.SetRelationship(ctx, r))
	case *api.DeleteRelationshipRequest:
		return fix(e.ps.DeleteRelationship(ctx, r))
	case *api.GetRelationshipRequest:
		return fix(e.ps.GetRelationship(ctx, r))
	case *api.FindRelationshipRecordsRequest:
		return fix(e.ps.FindRelationshipRecords(ctx, r))
	case *api.DeleteRelationshipsRequest:
		return fix(e.ps.DeleteRelationships(ctx, r))
	case *api.CheckRequest:
		return fix(e.rg.Check(ctx, r))
	case *api.ExplainCheckRequest:
		return fix(e.rg.ExplainCheck(ctx, r))
	case *api.ExpandRequest:
		return fix(e.rg.Expand(ctx, r))
	case *api.DumpRelationshipsRequest:
		return fix(e.rg.DumpRelationships(ctx, r))
	}
	panic(fmt.Sprintf("harness: unknown request %T", req))
}

// startServer serves an instance over gRPC with the repository's own server on a loopback port.
// The server has no stop method; it lives as long as the process.
func startServer(kv rcdb.KVStore) (string, error) {
	z, err := zanzi.New(zanzi.WithLogger(&types.NoopLogger{}), zanzi.WithKVStore(kv))
	if err != nil {
		return "", err
	}
	return serve(z)
}

// serve is startServer for an existing instance.
func serve(z zanzi.Zanzi) (string, error) {
	var last error
	for i := 0; i < 20; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return "", err
		}
		addr := l.Addr().String()
		l.Close()
		s := server.NewServer(addr)
		if last = s.Init(&z); last != nil {
			continue
		}
		go s.Run()
		return addr, nil
	}
	return "", last
}

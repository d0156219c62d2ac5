// Package proto: the messages of lib/proto, delivered by direct calls.
package proto

import (
	"github.com/si-co/vpir-code/vpstub/context"
	"github.com/si-co/vpir-code/vpstub/grpc"
)

type QueryRequest struct{ Query []byte }

func (x *QueryRequest) GetQuery() []byte {
	if x != nil {
		return x.Query
	}
	return nil
}

type QueryResponse struct{ Answer []byte }

func (x *QueryResponse) GetAnswer() []byte {
	if x != nil {
		return x.Answer
	}
	return nil
}

type DatabaseInfoRequest struct{}

type DatabaseInfoResponse struct {
	NumRows     uint32
	NumColumns  uint32
	BlockLength uint32
	PirType     string
	Root        []byte
	ProofLen    uint32
}

func (x *DatabaseInfoResponse) GetNumRows() uint32 {
	if x != nil {
		return x.NumRows
	}
	return 0
}
func (x *DatabaseInfoResponse) GetNumColumns() uint32 {
	if x != nil {
		return x.NumColumns
	}
	return 0
}
func (x *DatabaseInfoResponse) GetBlockLength() uint32 {
	if x != nil {
		return x.BlockLength
	}
	return 0
}
func (x *DatabaseInfoResponse) GetPirType() string {
	if x != nil {
		return x.PirType
	}
	return ""
}
func (x *DatabaseInfoResponse) GetRoot() []byte {
	if x != nil {
		return x.Root
	}
	return nil
}
func (x *DatabaseInfoResponse) GetProofLen() uint32 {
	if x != nil {
		return x.ProofLen
	}
	return 0
}

type VPIRClient interface {
	DatabaseInfo(ctx context.Context, in *DatabaseInfoRequest, opts ...grpc.CallOption) (*DatabaseInfoResponse, error)
	Query(ctx context.Context, in *QueryRequest, opts ...grpc.CallOption) (*QueryResponse, error)
}

// OnQuery and OnInfo are the servers, by address.
var OnQuery func(target string, q []byte) ([]byte, error)
var OnInfo func(target string) (*DatabaseInfoResponse, error)

type client struct{ target string }

func NewVPIRClient(cc grpc.ClientConnInterface) VPIRClient { return &client{cc.Target()} }

func (c *client) DatabaseInfo(ctx context.Context, in *DatabaseInfoRequest, opts ...grpc.CallOption) (*DatabaseInfoResponse, error) {
	return OnInfo(c.target)
}
func (c *client) Query(ctx context.Context, in *QueryRequest, opts ...grpc.CallOption) (*QueryResponse, error) {
	a, err := OnQuery(c.target, in.Query)
	if err != nil {
		return nil, err
	}
	return &QueryResponse{Answer: a}, nil
}

type VPIRServer interface {
	DatabaseInfo(context.Context, *DatabaseInfoRequest) (*DatabaseInfoResponse, error)
	Query(context.Context, *QueryRequest) (*QueryResponse, error)
}

type UnimplementedVPIRServer struct{}

// Transport and Service are what the program registered.
var Transport *grpc.Server
var Service VPIRServer

func RegisterVPIRServer(s *grpc.Server, srv VPIRServer) { Transport, Service = s, srv }

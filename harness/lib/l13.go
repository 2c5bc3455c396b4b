package lib

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"

	serrors "github.com/solarisdb/solaris/golibs/errors"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L13",
		Rule: "chains: random chains of errors (a class or a foreign error at the root, wrapping by %w, %v and Join, gRPC statuses in the middle, embedded objects) are wrapped for gRPC, marshalled and " +
			"unmarshalled like by the network, 0-3 hops; the class at the other side must be the one at the root, the same every time, and no other; the object must be extracted unchanged. Distinct by the chain shape",
		MinEvents: []string{"classes", "foreign", "statuses", "objects", "hops"},
		Scens: []fw.Scenario{
			{Name: "chains", Quick: 16000, Thorough: 1500000, Run: l13Chains},
		},
	})
}

type wireObj struct {
	A int               `json:"a"`
	S string            `json:"s"`
	M map[string]string `json:"m,omitempty"`
	L []wireObj         `json:"l,omitempty"`
}

func genWireObj(r *rand.Rand, d int) wireObj {
	e := wireObj{A: r.Int(), S: oneOf(r, []string{"", "x", "\x1bjson", "\x1b", "{\"a\":1}", "%w %s", "名\n\"'", "\u2028<&>"})}
	if r.Intn(3) == 0 {
		e.M = map[string]string{oneOf(r, []string{"", "k", "\x1bjson"}): "v"}
	}
	for n := r.Intn(3); d > 0 && n > 0; n-- {
		e.L = append(e.L, genWireObj(r, d-1))
	}
	return e
}

// network is what happens with the error on its way to the client
func network(err error) error {
	st, ok := status.FromError(err)
	if !ok {
		return status.Error(codes.Unknown, err.Error())
	}
	b, e := proto.Marshal(st.Proto())
	fw.Must(e)
	p := st.Proto()
	proto.Reset(p)
	fw.Must(proto.Unmarshal(b, p))
	return status.FromProto(p).Err()
}

func l13Chains(c *fw.Case) {
	r := c.Rng
	var err, class error
	shape := ""
	switch r.Intn(8) {
	case 0:
		err = oneOf(r, []error{errors.New("boom"), io.EOF, fmt.Errorf("x: %v", serrors.ErrNotExist), errors.New("conflict")})
		class = serrors.ErrInternal
		shape = "foreign"
		c.Count("foreign", 1)
	case 1:
		codesOf := map[codes.Code]error{codes.NotFound: serrors.ErrNotExist, codes.InvalidArgument: serrors.ErrInvalid, codes.AlreadyExists: serrors.ErrExist, codes.PermissionDenied: serrors.ErrNotAuthorized,
			codes.Unauthenticated: serrors.ErrNotAuthorized, codes.DataLoss: serrors.ErrDataLoss, codes.ResourceExhausted: serrors.ErrExhausted, codes.Unimplemented: serrors.ErrUnimplemented,
			codes.FailedPrecondition: serrors.ErrConflict, codes.Canceled: serrors.ErrCanceled, codes.DeadlineExceeded: serrors.ErrCommunication, codes.Internal: serrors.ErrInternal, codes.Unavailable: serrors.ErrInternal, codes.Aborted: serrors.ErrInternal}
		cd := codes.Code(1 + r.Intn(16))
		if codesOf[cd] == nil {
			cd = codes.NotFound
		}
		err, class = status.Error(cd, oneOf(r, []string{"", "msg", serrors.ErrNotExist.Error()})), codesOf[cd]
		shape = "status:" + cd.String()
		c.Count("statuses", 1)
	default:
		class = errClasses[r.Intn(len(errClasses))]
		err, shape = class, "class:"+class.Error()
		c.Count("classes", 1)
	}
	check := func(err error, where string) {
		c.Eval(1)
		for _, k := range append(errClasses, serrors.ErrCommunication) {
			if got, want := serrors.Is(err, k), errors.Is(k, class); got != want {
				c.Fail("class:"+where+":"+class.Error(), "%s: %s: the error %q: Is(%q) is %t, the class is %q", where, shape, err, k, got, class)
			}
		}
	}
	wrap := func() {
		switch r.Intn(5) {
		case 0:
			err, shape = errors.Join(errors.New("other"), err), shape+" join"
		case 1:
			err, shape = fmt.Errorf("%v and %w", io.EOF, err), shape+" %w"
		default:
			err, shape = fmt.Errorf("level %d: %w", r.Intn(100), err), shape+" %w"
		}
	}
	for n := r.Intn(3); n > 0; n-- {
		wrap()
	}
	var obj *wireObj
	if r.Intn(3) == 0 {
		o := genWireObj(r, 2)
		obj = &o
		err, shape = serrors.EmbedObject(o, err), shape+" object"
		c.Count("objects", 1)
		for n := r.Intn(2); n > 0; n-- {
			wrap()
		}
	}
	object := func(err error, where string) {
		var got wireObj
		ok := serrors.ExtractObject(err, &got)
		if ok != (obj != nil) || ok && !reflect.DeepEqual(got, *obj) {
			c.Fail("object:"+where, "%s: %s: the object extracted is %+v (%t), expected %+v", where, shape, got, ok, obj)
		}
	}
	object(err, "local")
	// several calls give the same
	cd := serrors.GRPCStatusCode(err)
	for i := 0; i < 20; i++ {
		if x := serrors.GRPCStatusCode(err); x != cd {
			c.Fail("code-differs", "%s: the status code of %q is %v or %v", shape, err, cd, x)
			break
		}
	}
	for hop := 1 + r.Intn(3); hop > 0; hop-- {
		c.Count("hops", 1)
		err = network(serrors.GRPCWrap(err))
		if st, ok := status.FromError(err); !ok || st.Code() == codes.OK || st.Code() == codes.Unknown {
			c.Fail("not-coded", "%s: the error after the network is %v", shape, err)
			return
		}
		check(err, "remote")
		object(err, "remote")
		if r.Intn(2) == 0 {
			err = fmt.Errorf("the service says: %w", err)
		}
	}
	c.Distinct(shape)
	c.Sample("%s -> %v", shape, err)
}

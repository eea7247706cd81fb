package c28

import (
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	_ "zntr.io/solid/api/oidc/client/v1"
	_ "zntr.io/solid/api/oidc/core/v1"
	_ "zntr.io/solid/api/oidc/discovery/v1"
	_ "zntr.io/solid/api/oidc/flow/v1"
	_ "zntr.io/solid/api/oidc/resource/v1"
	_ "zntr.io/solid/api/oidc/session/v1"
	_ "zntr.io/solid/api/oidc/token/v1"
)

// fast is the generated codec.
type fast interface {
	proto.Message
	MarshalVT() ([]byte, error)
	MarshalToVT([]byte) (int, error)
	MarshalToSizedBufferVT([]byte) (int, error)
	SizeVT() int
	UnmarshalVT([]byte) error
}

type jsonCodec interface {
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
}

// messages lists the API message types, in a fixed order.
func messages() []protoreflect.MessageType {
	var out []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		if strings.HasPrefix(string(mt.Descriptor().FullName()), "oidc.") && !mt.Descriptor().IsMapEntry() {
			out = append(out, mt)
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Descriptor().FullName() < out[j].Descriptor().FullName() })
	return out
}

package checks

import (
	"github.com/google/go-cmp/cmp"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/testing/protocmp"
)

// lazyDiff renders a protobuf diff only when printed.
type lazyDiff struct{ a, b pb.Message }

func (d lazyDiff) String() string {
	s := cmp.Diff(d.a, d.b, protocmp.Transform())
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// pdiff is the difference (-want +got).
func pdiff(want, got pb.Message) lazyDiff { return lazyDiff{want, got} }

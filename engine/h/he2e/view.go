package he2e

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zzsim/h/gen"
	"google.golang.org/protobuf/encoding/prototext"
)

// view is what a client has been told: rendered values by full path.
type view map[string]string

// covers reports whether deleting p (which may contain globs) removes l.
func covers(p, l []string) bool {
	if len(p) > len(l) {
		return false
	}
	for i := range p {
		if p[i] != "*" && p[i] != l[i] {
			return false
		}
	}
	return true
}

func (v view) del(p []string) {
	for k := range v {
		if covers(p, gen.Unkey(k)) {
			delete(v, k)
		}
	}
}

// event is one thing a client displayed.
type event struct {
	path []string
	val  string
	del  bool
	all  bool // the event starts a display of everything
	sync bool
}

func (v view) apply(e event) {
	switch {
	case e.all:
		clear(v)
	case e.sync:
	case e.del:
		v.del(e.path)
	default:
		v[gen.Key(e.path)] = e.val
	}
}

var size = regexp.MustCompile(`^// total response size: \d+$`)

var member = regexp.MustCompile(`^\s*("(?:[^"\\]|\\.)*"): (.*)$`)

// parseGroup reads the output of a group display: one block per display. In a
// streaming display blocks after the first are single changes. With timestamps
// a leaf is displayed as a container of its value and its timestamp.
func parseGroup(out, prefix string, stamped, stream bool) ([]event, error) {
	var ev []event
	var stack []string
	depth, blocks := 0, 0
	for _, line := range strings.Split(out, "\n") {
		if line == "" || depth == 0 && size.MatchString(line) {
			continue
		}
		var ok bool
		if line, ok = strings.CutPrefix(line, prefix); !ok {
			return ev, fmt.Errorf("line %q has no prefix", line)
		}
		t := strings.TrimSpace(line)
		switch {
		case t == "":
		case depth == 0 && t == "{":
			depth = 1
			stack = nil
			if blocks == 0 || !stream {
				ev = append(ev, event{all: true})
			}
			blocks++
		case depth == 0:
			return ev, fmt.Errorf("line %q", line)
		case t == "}" || t == "},":
			depth--
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
		default:
			m := member.FindStringSubmatch(line)
			if m == nil {
				return ev, fmt.Errorf("line %q", line)
			}
			k, err := strconv.Unquote(m[1])
			if err != nil {
				return ev, fmt.Errorf("line %q: %v", line, err)
			}
			if m[2] == "{" {
				stack = append(stack, k)
				depth++
				continue
			}
			p := append(append([]string{}, stack...), k)
			if stamped {
				if k == "timestamp" {
					continue
				}
				if k != "value" {
					return ev, fmt.Errorf("line %q is not the value or timestamp of a leaf", line)
				}
				p = p[:len(p)-1]
			}
			x := strings.TrimSuffix(m[2], ",")
			if x == "<nil>" {
				ev = append(ev, event{path: p, del: true})
			} else {
				ev = append(ev, event{path: p, val: x})
			}
		}
	}
	if depth != 0 {
		return ev, fmt.Errorf("display is cut short")
	}
	return ev, nil
}

// parseSingle reads "path, value" lines; known are the paths it may name.
// extra fields follow the value.
func parseSingle(out, delim string, known map[string][]string, extra int) ([]event, error) {
	var ev []event
	for _, line := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if line == "" {
			continue
		}
		p, v, ok := strings.Cut(line, ", ")
		if !ok {
			return ev, fmt.Errorf("line %q", line)
		}
		for i := 0; i < extra; i++ {
			k := strings.LastIndex(v, ", ")
			if k < 0 {
				return ev, fmt.Errorf("line %q lacks fields", line)
			}
			v = v[:k]
		}
		full, isLeaf := known[p]
		if isMeta := strings.Contains(p, delim+"meta"+delim); !isLeaf && isMeta {
			continue
		}
		if v == "<nil>" && !isLeaf {
			ev = append(ev, event{path: strings.Split(p, delim), del: true})
			continue
		}
		if !isLeaf {
			return ev, fmt.Errorf("unknown path in line %q", line)
		}
		ev = append(ev, event{path: full, val: v, del: v == "<nil>"})
	}
	return ev, nil
}

// parseProto reads the responses of a (short) proto display, in sequence.
func parseProto(out string) ([]event, error) {
	var ev []event
	var msg []string
	flush := func() error {
		if len(msg) == 0 {
			return nil
		}
		r := &pb.SubscribeResponse{}
		err := prototext.Unmarshal([]byte(strings.Join(msg, "\n")), r)
		if err != nil {
			return fmt.Errorf("%v in %q", err, strings.Join(msg, "\n"))
		}
		msg = nil
		ev = append(ev, events(r)...)
		return nil
	}
	for _, line := range strings.Split(out, "\n") {
		if line == "" || size.MatchString(line) {
			continue
		}
		if line[0] != ' ' && line[0] != '}' {
			if err := flush(); err != nil {
				return ev, err
			}
		}
		msg = append(msg, line)
	}
	return ev, flush()
}

func events(r *pb.SubscribeResponse) []event {
	if n := r.GetUpdate(); n != nil {
		var ev []event
		full := func(p *pb.Path) []string {
			var out []string
			if t := n.GetPrefix().GetTarget(); t != "" {
				out = append(out, t)
			}
			return append(out, gen.FullIndex(n.GetPrefix(), p)...)
		}
		for _, u := range n.Update {
			ev = append(ev, event{path: full(u.Path), val: protoText(u)})
		}
		for _, d := range n.Delete {
			ev = append(ev, event{path: full(d), del: true})
		}
		return ev
	}
	return []event{{sync: true}}
}

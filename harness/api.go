package main

// Thin layer over the public API of the code under test.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/vmux"
)

func newRT() *thema.Runtime { return thema.NewRuntime(cuecontext.New()) }

func sv(v Ver) thema.SyntacticVersion { return thema.SV(v[0], v[1]) }
func mv(v thema.SyntacticVersion) Ver { return Ver{v[0], v[1]} }

func bindSrc(rt *thema.Runtime, src string, o ...thema.BindOption) (thema.Lineage, error) {
	return thema.BindLineage(rt.Context().CompileString(src, cue.Filename("lin.cue")), rt, o...)
}

func bind(rt *thema.Runtime, l *Lin, o ...thema.BindOption) (thema.Lineage, error) {
	return bindSrc(rt, l.body(), o...)
}

// mustBind binds a lineage that the model knows to be valid.
func (c *Ctx) mustBind(rt *thema.Runtime, l *Lin, o ...thema.BindOption) thema.Lineage {
	c.note("lineage (%s):\n%s", l.shape(), l.body())
	lin, err := bind(rt, l, o...)
	if err != nil {
		c.fail("bind", "valid lineage is rejected: %s", err)
		return nil
	}
	return lin
}

var jsonC = vmux.NewJSONCodec("in.json")
var yamlC = vmux.NewYAMLCodec("in.yaml")

func decode(rt *thema.Runtime, data any) cue.Value {
	v, err := jsonC.Decode(rt.Context(), []byte(jsonText(data, nil)))
	must(err)
	return v
}

// parseJSON decodes JSON bytes into model data.
func parseJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return norm(v), nil
}

func norm(v any) any {
	switch x := v.(type) {
	case json.Number:
		if !strings.ContainsAny(string(x), ".eE") {
			if i, err := x.Int64(); err == nil {
				return i
			}
		}
		f, _, err := big.ParseFloat(string(x), 10, 200, big.ToNearestEven)
		if err == nil {
			g, _ := f.Float64()
			return g
		}
		return string(x)
	case float64:
		return x
	case map[string]any:
		n := map[string]any{}
		for k, e := range x {
			n[k] = norm(e)
		}
		return n
	case []any:
		n := []any{}
		for _, e := range x {
			n = append(n, norm(e))
		}
		return n
	}
	return v
}

// dataOf extracts the data of an instance.
func dataOf(i *thema.Instance) (any, error) { return valueData(i.Underlying()) }

func valueData(v cue.Value) (any, error) {
	b, err := v.MarshalJSON()
	if err != nil {
		return nil, err
	}
	return parseJSON(b)
}

func is(err, target error) bool { return errors.Is(err, target) }

var (
	errInvalidData     = terrors.ErrInvalidData
	errInvalidLineage  = terrors.ErrInvalidLineage
	errInvalidLens     = terrors.ErrInvalidLens
	errVersionNotExist = terrors.ErrVersionNotExist
)

func allVers(l thema.Lineage) []Ver {
	var vs []Ver
	for _, s := range l.All() {
		vs = append(vs, mv(s.Version()))
	}
	return vs
}

func oneLine(err error) string {
	if err == nil {
		return "<nil>"
	}
	return trunc(strings.Join(strings.Fields(err.Error()), " "), 300)
}

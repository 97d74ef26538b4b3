package main

import (
	"fmt"
	"math/big"
	"strings"

	"gopkg.in/yaml.v3"
)

// parseYAML reads one YAML document into model data with a decoder that the code
// under test does not use.
func parseYAML(b []byte) (any, error) {
	var n yaml.Node
	if err := yaml.Unmarshal(b, &n); err != nil {
		return nil, err
	}
	if n.Kind == 0 {
		return nil, nil
	}
	return yamlNode(&n)
}

func yamlNode(n *yaml.Node) (any, error) {
	switch n.Kind {
	case yaml.DocumentNode:
		return yamlNode(n.Content[0])
	case yaml.AliasNode:
		return yamlNode(n.Alias)
	case yaml.SequenceNode:
		l := []any{}
		for _, e := range n.Content {
			v, err := yamlNode(e)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		return l, nil
	case yaml.MappingNode:
		m := map[string]any{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			v, err := yamlNode(n.Content[i+1])
			if err != nil {
				return nil, err
			}
			m[n.Content[i].Value] = v
		}
		return m, nil
	}
	switch n.ShortTag() {
	case "!!null":
		return nil, nil
	case "!!bool":
		var x bool
		err := n.Decode(&x)
		return x, err
	case "!!int":
		var x int64
		if err := n.Decode(&x); err == nil {
			return x, nil
		}
		fallthrough
	case "!!float":
		f, _, err := big.ParseFloat(strings.ReplaceAll(n.Value, "_", ""), 10, 200, big.ToNearestEven)
		if err != nil {
			return nil, fmt.Errorf("number %q: %w", n.Value, err)
		}
		g, _ := f.Float64()
		return g, nil
	}
	return n.Value, nil
}

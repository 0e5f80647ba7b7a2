package run

import (
	"encoding/json"
	"fmt"
	"strings"

	"gopkg.in/yaml.v3"

	"verif/harness/abs"
)

// yamlData reads YAML independently of CUE.
func yamlData(b []byte) (*abs.Data, error) {
	var n yaml.Node
	if err := yaml.Unmarshal(b, &n); err != nil {
		return nil, err
	}
	if len(n.Content) != 1 {
		return nil, fmt.Errorf("not one document")
	}
	x, err := yamlGo(n.Content[0])
	if err != nil {
		return nil, err
	}
	return abs.FromGo(x), nil
}

func yamlGo(n *yaml.Node) (any, error) {
	switch n.Kind {
	case yaml.MappingNode:
		m := map[string]any{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			v, err := yamlGo(n.Content[i+1])
			if err != nil {
				return nil, err
			}
			m[n.Content[i].Value] = v
		}
		return m, nil
	case yaml.SequenceNode:
		l := []any{}
		for _, c := range n.Content {
			v, err := yamlGo(c)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		return l, nil
	case yaml.ScalarNode:
		switch n.Tag {
		case "!!str":
			return n.Value, nil
		case "!!int", "!!float":
			return json.Number(n.Value), nil
		case "!!bool":
			var b bool
			err := n.Decode(&b)
			return b, err
		case "!!null":
			return nil, nil
		}
	}
	return nil, fmt.Errorf("unexpected YAML node %d %s", n.Kind, n.Tag)
}

// yamlText renders data as YAML in block style.
func yamlText(d *abs.Data) string {
	var b strings.Builder
	yamlBlock(&b, d, "")
	return b.String()
}

func yamlBlock(b *strings.Builder, d *abs.Data, ind string) {
	switch {
	case d.K == 'm' && len(d.M) > 0:
		for _, k := range abs.SortedKeys(d.M) {
			x := d.M[k]
			b.WriteString(ind + abs.QuoteJSON(abs.Unescape(k)) + ":")
			yamlSub(b, x, ind)
		}
	case d.K == 'l' && len(d.L) > 0:
		for _, x := range d.L {
			b.WriteString(ind + "-")
			yamlSub(b, x, ind)
		}
	default:
		b.WriteString(ind + d.JSON() + "\n")
	}
}

func yamlSub(b *strings.Builder, d *abs.Data, ind string) {
	if d.K == 'm' && len(d.M) > 0 || d.K == 'l' && len(d.L) > 0 {
		b.WriteString("\n")
		yamlBlock(b, d, ind+"  ")
		return
	}
	b.WriteString(" " + d.JSON() + "\n")
}

// yamlToJSON turns YAML, or JSON, into JSON.
func yamlToJSON(b []byte) ([]byte, error) {
	d, err := yamlData(b)
	if err != nil {
		return nil, err
	}
	return []byte(d.JSON()), nil
}

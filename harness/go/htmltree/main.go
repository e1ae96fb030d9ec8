// Reads lines of JSON {"html":…, "context":…}; writes for each the parsed tree (scripting off, as a browser
// without it and as the builder does) and whether the tree survives being written down and parsed again.
// Nodes: ["#text",s] ["#comment",s] ["#doctype",s,[attrs]] [ns+name,[[k,v]…],[children]]
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"os"
	"reflect"
	"sort"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

type in struct {
	HTML    string `json:"html"`
	Context string `json:"context"`
}

func conv(n *html.Node) any {
	switch n.Type {
	case html.TextNode:
		return []any{"#text", n.Data}
	case html.CommentNode:
		return []any{"#comment", n.Data}
	}
	attrs := [][2]string{}
	for _, a := range n.Attr {
		k := a.Key
		if a.Namespace != "" {
			k = a.Namespace + ":" + k
		}
		attrs = append(attrs, [2]string{k, a.Val})
	}
	sort.Slice(attrs, func(i, j int) bool { return attrs[i][0] < attrs[j][0] })
	if n.Type == html.DoctypeNode {
		return []any{"#doctype", n.Data, attrs}
	}
	name := n.Data
	if n.Namespace != "" {
		name = n.Namespace + " " + name
	}
	return []any{name, attrs, kids(n)}
}

func kids(n *html.Node) []any {
	res := []any{}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		v := conv(c)
		if c.Type == html.TextNode && len(res) > 0 {
			if l := res[len(res)-1].([]any); l[0] == "#text" {
				l[1] = l[1].(string) + c.Data
				continue
			}
		}
		res = append(res, v)
	}
	return res
}

func parse(s, context string) (*html.Node, []any, error) {
	if context == "" {
		n, err := html.ParseWithOptions(bytes.NewReader([]byte(s)), html.ParseOptionEnableScripting(false))
		if err != nil {
			return nil, nil, err
		}
		return n, kids(n), nil
	}
	c := &html.Node{Type: html.ElementNode, Data: context, DataAtom: atom.Lookup([]byte(context))}
	ns, err := html.ParseFragmentWithOptions(bytes.NewReader([]byte(s)), c, html.ParseOptionEnableScripting(false))
	if err != nil {
		return nil, nil, err
	}
	d := &html.Node{Type: html.DocumentNode}
	for _, n := range ns {
		d.AppendChild(n)
	}
	return d, kids(d), nil
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for sc.Scan() {
		var i in
		if err := json.Unmarshal(sc.Bytes(), &i); err != nil {
			panic(err)
		}
		n, t, err := parse(i.HTML, i.Context)
		if err != nil {
			enc.Encode(map[string]any{"error": err.Error()})
			w.Flush()
			continue
		}
		stable := false
		var b bytes.Buffer
		if html.Render(&b, n) == nil {
			if _, t2, err := parse(b.String(), i.Context); err == nil {
				stable = reflect.DeepEqual(t, t2)
			}
		}
		enc.Encode(map[string]any{"tree": t, "stable": stable})
		w.Flush()
	}
}

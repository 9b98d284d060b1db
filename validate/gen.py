#!/usr/bin/env python3
"""Generate a harness directory that pushes every page of /repo/testdata through
New().Parse() concretely: the encoding's result is compared with the native one."""
import os, json, sys, shutil
repo, out = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out + '/native', exist_ok=True)
shutil.copy(here + '/../harness/vx.go', out)
shutil.copy(here + '/../harness/native/main.go', out + '/native/')
base = repo + '/testdata/test-pages'
o = open(out + '/pages.go', 'w')
o.write('''package readability

func vhPg(html string) {
	r, err := New(html, "http://fakehost/test/page.html")
	if err != nil {
		vxObserve("err", err.Error())
		return
	}
	res, err := r.Parse()
	if err != nil {
		vxObserve("err", err.Error())
		return
	}
	vxObserve("title", res.Title)
	vxObserve("html", res.HTMLContent)
	vxObserve("text", res.TextContent)
	vxObserveInt("len", res.Length)
	vxObserve("ex", res.Excerpt)
	vxObserve("by", res.Byline+"|"+res.Dir+"|"+res.SiteName+"|"+res.Lang+"|"+res.PublishedTime)
}
''')
idx = []
for i, f in enumerate(sorted(os.listdir(base))):
    p = os.path.join(base, f, 'source.html')
    if not os.path.exists(p):
        continue
    b = open(p, 'rb').read()
    lit = '"' + ''.join(chr(c) if 32 <= c < 127 and c not in (34, 92) else '\\x%02x' % c for c in b) + '"'
    o.write('func vhPage%d() { vhPg(%s) }\n' % (i, lit))
    idx.append({"name": 'vhPage%d' % i, "property": "PG", "outside": f})
o.write('var vxHarnesses = map[string]func(){\n' + ''.join('"%s": %s,\n' % (x['name'], x['name']) for x in idx) + '}\n')
o.close()
json.dump(idx, open(out + '/index.json', 'w'))

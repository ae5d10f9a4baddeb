"""Writes the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C12-stale-deps': 'C12, after family `edits` was added',
    'C19-same-column': 'C19, after shared columns were added',
    'C05-scope': 'C05, after family `foreign` was added',
    'C10-in-place': 'C10, after family `inside` was added',
    'C10-fold': 'C10, after family `names` was added',
    'C10-deep': 'C10, after family `very-deep` was added',
    'C16-limit': 'C16, after family `deep-references` was added',
    'C25-uint16': 'C25, after family `large` was added',
    'C02-uint16': 'C02, after family `large` was added',
    'C26-text': 'C26, after family `error-kinds` was added',
    'C27-format': 'C27, after family `texts` was added',
    'C05-memo': 'C05, after family `stateful` was added',
    'C23-eof': 'C23, after family `error-kinds` was added',
    'C05-suffix-once': 'C05, after family `same-affixes` was added',
    'C13-append-nil': 'C13, after family `values` was added',
    'C16-after-table': 'C16, after family `beside` was added',
    'C17-semicolon': 'C17, after family `bodies` was added',
    'C20-withalias': 'C20, after other aliases were added to `names`',
    'C23-cap': 'C23, after family `large` was extended',
    'C10-case': 'C10, after family `similar-names` was added',
    'C24-semicolon': 'C24, after family `texts` was added',
}
rows = []
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '\\|'), NOTES.get(i, m['property'])))
t = '<!-- seeds -->\n| id | what it breaks | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
p = ROOT + '/DESIGN.md'
s = open(p).read()
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', t)
else:
    s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)

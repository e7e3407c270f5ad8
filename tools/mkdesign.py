"""Fill the table of planted bugs into DESIGN.md."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[1], m['property'], m['needs']))
s = open('DESIGN.md').read()
new = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('@SEEDS@', new) if '@SEEDS@' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: new, s, flags=re.S)
open('DESIGN.md', 'w').write(s)

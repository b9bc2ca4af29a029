"""Append/refresh the per-property section of DESIGN.md from the check modules."""
import importlib, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
p = os.path.join(VERIF, 'DESIGN.md')
text = open(p).read()
B, E = '<!-- properties: begin -->\n', '<!-- properties: end -->\n'
out = [B, '## Properties\n\n']
for f in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
    if f.startswith('C') and f.endswith('.py'):
        m = importlib.import_module(f'checks.{f[:-3]}')
        P = m.PROP
        out.append(f"### {m.ID} {P['title']}\n\n{P['statement']}\n\n"
                   f"- Explored: {m.RULE}.\n- Bounds, quick: {m.BOUNDS['quick']}.\n- Bounds, thorough: {m.BOUNDS['thorough']}.\n"
                   f"- Decided by: {P['technique']}. {P['level_note']}\n- Beyond the tests: {P['why']}\n"
                   f"- Assumes: {'; '.join(m.ASSUMPTIONS)}.\n" + (f"- Notes: {P['notes']}\n" if P.get('notes') else '') + '\n')
out.append(E)
new = ''.join(out)
text = text.split(B)[0] + new + text.split(E)[1] if B in text else text + new
open(p, 'w').write(text)

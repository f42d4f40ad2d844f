#!/opt/venv/bin/python
"""Write the generated tables of DESIGN.md."""
import json
import pathlib
import re

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent


def facets():
    lines = ['| property | facet | quick | thorough | statement |',
             '|---|---|---|---|---|']
    for path in sorted(VERIF.glob('checks/p[0-9][0-9].py')):
        for m in re.finditer(
                r'@PROPERTY\.facet\((.*?)\n(?:@contained\n)?'
                r'def (\w+)\(.*?\):\n\s+"""(.*?)"""', path.read_text(), re.S):
            quick, deep = (re.findall(rf'\b{k}=(\d+)', m[1])[-1]
                           for k in ('quick', 'thorough'))
            lines.append(f"| {path.stem.upper()} | {m[2].rstrip('_')} | "
                         f"{quick} | {deep} | {' '.join(m[3].split())} |")
    return lines


def planted():
    record = json.loads((HERE / 'planted.json').read_text())
    lines = ['| change | property | reported by | what it breaks |',
             '|---|---|---|---|']
    for name, r in sorted(record.items(),
                          key=lambda x: (x[1]['property'], x[0])):
        meta = json.loads((VERIF / 'seeded' / name / 'meta.json').read_text())
        by = ', '.join(r['facets']) if r['exit'] == 1 else '(missed)'
        lines.append(f"| {name} | {r['property']} | {by} | "
                     f"{' '.join(str(meta['what_it_breaks']).split())} |")
    return lines


def main():
    path = VERIF / 'DESIGN.md'
    text = path.read_text()
    for name, lines in (('facets', facets()), ('planted', planted())):
        body = '\n'.join(lines).replace('\\', '\\\\')
        text = re.sub(rf'<!-- {name} -->.*?<!-- /{name} -->',
                      f'<!-- {name} -->\n\n{body}\n\n<!-- /{name} -->', text,
                      flags=re.S)
    path.write_text(text)


if __name__ == '__main__':
    main()

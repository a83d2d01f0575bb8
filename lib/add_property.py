"""Adds or replaces a property in properties.jsonl."""
import json
import os
PATH = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'properties.jsonl')


def add(id, title, statement, over, text, why, files, mechanism, observe_at):
  assert len(title) <= 80, len(title)
  props = [json.loads(l) for l in open(PATH, encoding='utf-8')]
  p = {
      'id': id, 'title': title, 'statement': ' '.join(statement.split()),
      'quantifier': {'over': over, 'text': ' '.join(text.split())},
      'why_tests_cant': ' '.join(why.split()),
      'anchors': {'files': files,
                  'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                  'observe_at': observe_at, 'state': [], 'hook_needed': None}}
  props = [q for q in props if q['id'] != id] + [p]
  props.sort(key=lambda q: q['id'])
  with open(PATH, 'w', encoding='utf-8') as f:
    for q in props:
      f.write(json.dumps(q, ensure_ascii=False) + '\n')

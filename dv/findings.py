"""Known findings: genuine defects that are recorded rather than repaired (see known-findings.json)."""
import json, os
import dv.env as env

_path = os.path.join(env.VERIF, 'known-findings.json')
_list = json.load(open(_path))['findings'] if os.path.exists(_path) else []


def known(pid, v):
	"""text of the finding this violation is an instance of, or None. An entry applies only to the exact
	failing case it names: its property, its contract and its marker in the description of the case."""
	for f in _list:
		if f.get('status') == 'open' and f['property'] == pid and f['contract'] == v['contract'] and f['match'] in v['what']:
			return f['what']
	return None

import importlib.util, mc.props.C01 as _c01
_spec = importlib.util.spec_from_file_location("mc.props._C02", _c01.__file__)
_m = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(_m)
_m.VER = 3
BOUNDS, ASSUMPTIONS, run, replay = _m.BOUNDS, _m.ASSUMPTIONS, _m.run, _m.replay

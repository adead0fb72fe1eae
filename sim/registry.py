def make(prop):
    if prop in ('P01', 'P02', 'P03', 'P04'):
        from .fengine import FunEngine
        return FunEngine(prop)
    if prop == 'P05':
        from .tengine import ThreadEngine
        return ThreadEngine(prop)
    if prop == 'P06':
        from .mengine import MatrixEngine
        return MatrixEngine(prop)
    if prop == 'P07':
        from .hengine import DiskEngine
        return DiskEngine(prop)
    if prop == 'P08':
        from .sengine import SettingsEngine
        return SettingsEngine(prop)
    if prop == 'P11':
        from .oengine import OpEngine
        return OpEngine(prop)
    if prop == 'P13':
        from .vengine import StateEngine
        return StateEngine(prop)
    if prop == 'P12':
        from .iengine import IterEngine
        return IterEngine(prop)
    if prop == 'P14':
        from .aengine import AdaptEngine
        return AdaptEngine(prop)
    if prop == 'P10':
        from .nengine import NewtonEngine
        return NewtonEngine(prop)
    if prop == 'P09':
        from .gengine import BuildEngine
        return BuildEngine(prop)
    if prop == 'P15':
        from .dengine import DeflEngine
        return DeflEngine(prop)
    if prop == 'P16':
        from .lengine import LinEngine
        return LinEngine(prop)
    raise SystemExit('unknown property %s' % prop)

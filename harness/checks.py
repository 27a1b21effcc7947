"""Which specification modules, generators and drivers decide each property."""
STEP = dict(
    mc={'quick': [('StepCtl', 'StepCtl.cfg')], 'thorough': [('StepCtl', 'StepCtl.cfg')]},
    gen=[('step', 'GenStep', 'GenStep.cfg', dict(simulate=dict(quick=140, thorough=2000), depth=30))],
    driver='drv_step',
)
CHECKS = {
    'C02': dict(STEP, trace='TraceStepCtl'),
    'C03': dict(STEP, trace='TraceHeun'),
}


def ctrl(focus, n):
    return dict(
        mc={'quick': [('CtrlDesign', 'CtrlDesign.cfg')], 'thorough': [('CtrlDesign', 'CtrlDesignL.cfg')]},
        gen=[(focus, 'GenCtrl', 'GenCtrl_%s.cfg' % focus, dict(simulate=dict(quick=n, thorough=20 * n), depth=60))],
        driver='drv_ctrl', trace='TraceCtrl')


CHECKS['C07'] = ctrl('twopoint', 60)
CHECKS['C08'] = ctrl('pid', 120)
CHECKS['C09'] = ctrl('dep', 80)
CHECKS['C10'] = ctrl('dead', 80)
CHECKS['C01'] = dict(
    mc={'quick': [('FlowDesign', 'FlowDesign.cfg')], 'thorough': [('FlowDesign', 'FlowDesignL.cfg')]},
    gen=[('net', 'GenNet', 'GenNet.cfg', dict(simulate=dict(quick=120, thorough=3000), depth=60))],
    driver='drv_flow', trace='TraceFlow')
CHECKS['C14'] = dict(
    mc={'quick': [('ActDesign', 'ActDesign.cfg')]},
    gen=[('act', 'GenAct', 'GenAct.cfg', dict(simulate=dict(quick=80, thorough=2000), depth=60))],
    driver='drv_act', trace='TraceAct')


def world(driver, trace, n, mc):
    return dict(mc=mc, gen=[('w', 'GenWorld', 'GenWorld.cfg', dict(simulate=dict(quick=n, thorough=20 * n), depth=12))],
                driver=driver, trace=trace)


CHECKS['C04'] = world('drv_chunk', 'TraceChunk', 60, {'quick': [('ChunkStore', 'ChunkStore.cfg')], 'thorough': [('ChunkStore', 'ChunkStoreL.cfg')]})
CHECKS['C13'] = world('drv_rerun', 'TraceRerun', 140, {'quick': [('Rerun', 'Rerun.cfg')]})
CHECKS['C11'] = world('drv_order', 'TraceSame', 70, {'quick': [('BuildOrder', 'BuildOrder.cfg')]})
CHECKS['C06'] = dict(
    mc={'quick': [('DynDesign', 'DynDesign.cfg')], 'thorough': [('DynDesign', 'DynDesignL.cfg')]},
    gen=[('bc', 'GenBC', 'GenBC.cfg', dict(simulate=dict(quick=100, thorough=2000), depth=60))],
    driver='drv_bc', trace='TraceBC')
CHECKS['C17'] = dict(
    mc={'quick': [('CHPDesign', 'CHPDesign.cfg')], 'thorough': [('CHPDesign', 'CHPDesignL.cfg')]},
    gen=[('chp', 'GenCHP', 'GenCHP.cfg', dict(simulate=dict(quick=120, thorough=2000), depth=80))],
    driver='drv_chp', trace='TraceCHP')
CHECKS['C18'] = dict(
    mc={'quick': [('HeatDesign', 'HeatDesign.cfg')]},
    gen=[('heat', 'GenHeat', 'GenHeat.cfg', dict(simulate=dict(quick=60, thorough=1500), depth=40))],
    driver='drv_heat', trace='TraceHeat')
CHECKS['C05'] = dict(
    mc={'quick': [('StoreDesign', 'StoreDesign.cfg')], 'thorough': [('StoreDesign', 'StoreDesignL.cfg')]},
    gen=[('st', 'GenStore', 'GenStore.cfg', dict(simulate=dict(quick=70, thorough=1000), depth=12))],
    driver='drv_store', trace='TraceStore')
CHECKS['C16'] = dict(
    mc={'quick': [('MeterDesign', 'MeterDesign.cfg')], 'thorough': [('MeterDesign', 'MeterDesignL.cfg')]},
    gen=[('mt', 'GenStore', 'GenStore.cfg', dict(simulate=dict(quick=60, thorough=1000), depth=12))],
    driver='drv_meter', trace='TraceMeter')
CHECKS['C15'] = dict(
    mc={'quick': [('ThermDesign', 'ThermDesign.cfg')], 'thorough': [('ThermDesign', 'ThermDesignL.cfg')]},
    gen=[('th', 'GenTherm', 'GenTherm.cfg', dict(simulate=dict(quick=160, thorough=4000), depth=60))],
    driver='drv_therm', trace='TraceTherm')
CHECKS['C19'] = dict(
    mc={'quick': [('HexDesign', 'HexDesign.cfg')], 'thorough': [('HexDesign', 'HexDesignL.cfg')]},
    gen=[('hx', 'GenHex', 'GenHex.cfg', dict(simulate=dict(quick=80, thorough=2000), depth=60))],
    driver='drv_hex', trace='TraceHex')
CHECKS['C12'] = dict(
    mc={'quick': [('LifeDesign', 'LifeDesign.cfg')], 'thorough': [('LifeDesign', 'LifeDesignL.cfg')]},
    gen=[('li', 'GenLife', 'GenLife.cfg', dict(simulate=dict(quick=1200, thorough=20000), depth=10))],
    driver='drv_life', trace='TraceLife')
CHECKS['C20'] = dict(
    gen=[('w', 'GenWorld', 'GenWorld.cfg', dict(simulate=dict(quick=60, thorough=1500), depth=12)),
         ('th', 'GenTherm', 'GenTherm.cfg', dict(simulate=dict(quick=80, thorough=2000), depth=60)),
         ('hx', 'GenHex', 'GenHex.cfg', dict(simulate=dict(quick=40, thorough=1000), depth=60))],
    driver='drv_jit', trace='TraceSame')
CHECKS['C21'] = dict(
    mc={'quick': [('LossDesign', 'LossDesign.cfg')]},
    gen=[('lo', 'GenLoss', 'GenLoss.cfg', dict(simulate=dict(quick=400, thorough=8000), depth=4))],
    driver='drv_loss', trace='TraceLoss')
CHECKS['C22'] = dict(
    mc={'quick': [('PropsDesign', 'PropsDesign.cfg')]},
    gen=[('pr', 'GenProps', 'GenProps.cfg', dict(simulate=dict(quick=80, thorough=2500), depth=4))],
    driver='drv_props', trace='TraceProps')
CHECKS['C23'] = dict(
    mc={'quick': [('NtuDesign', 'NtuDesign.cfg')], 'thorough': [('NtuDesign', 'NtuDesignL.cfg')]},
    gen=[('nt', 'GenNtu', 'GenNtu.cfg', dict(simulate=dict(quick=400, thorough=8000), depth=12))],
    driver='drv_ntu', trace='TraceNtu')

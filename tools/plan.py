"""What each check runs. models: design models for TLC (mc/), gens: behaviour generators (gen/),
traces: harness subcommands and the trace specification their output is validated against."""
PLAN = {
 'C01': dict(models=['MC_Gates', ('MC_Gates', {'cfg': 'MC_Gates2'}), ('MC_Gates', {'cfg': 'MC_Gates3'}), ('MC_Gates', {'cfg': 'MC_GatesBad', 'expect': 12})],
             gens=[dict(module='GenCircuit', num=(120, 1500), depth=30)],
             traces=[dict(bin='c01', sub='C01', module='FheTrace')]),
 'C02': dict(models=['MC_Bootstrap', ('MC_Bootstrap', {'cfg': 'MC_Bootstrap2'})],
             models_thorough=[('MC_Bootstrap', {'cfg': 'MC_BootstrapT'}), ('MC_Bootstrap', {'cfg': 'MC_Bootstrap2T'})],
             gens=[dict(module='GenBoot', num=(80, 800), depth=20)],
             traces=[dict(bin='c02', sub='C02', module='FheTrace')]),
 'C03': dict(models=['MC_Encode', ('MC_Encode', {'cfg': 'MC_Encode2'})], traces=[dict(bin='c03', sub='C03', module='FheTrace')]),
 'C04': dict(models=['MC_Lwe', ('MC_Lwe', {'cfg': 'MC_Lwe4'})], gens=[dict(module='GenLwe', num=(60, 600), depth=40)],
             traces=[dict(bin='c04', sub='C04', module='LatTrace')]),
 'C05': dict(models=['MC_ModSwitch', ('MC_ModSwitch', {'cfg': 'MC_ModSwitch2'})], traces=[dict(bin='c05', sub='C05', module='FheTrace')]),
 'C06': dict(models=['MC_KeySwitch', 'MC_RingSwitch', ('MC_RingSwitch', {'cfg': 'MC_RingSwitch2'}), ('MC_RingSwitch', {'cfg': 'MC_RingSwitch3'})],
             models_thorough=[('MC_KeySwitch', {'cfg': 'MC_KeySwitch2'})], traces=[dict(bin='c06', sub='C06', module='FheTrace')]),
 'C07': dict(models=['MC_BlindRotate', ('MC_BlindRotate', {'cfg': 'MC_BlindRotate2'})], traces=[dict(bin='c07', sub='C07', module='FheTrace')]),
 'C08': dict(models=['MC_Rlwe'], models_thorough=[('MC_Rlwe', {'cfg': 'MC_Rlwe2'})], gens=[dict(module='GenRlwe', num=(40, 400), depth=50)],
             traces=[dict(bin='c08', sub='C08', module='LatTrace')]),
 'C09': dict(models=['MC_Decomp', 'MC_Gadget'], traces=[dict(bin='c09', sub='C09', module='LatTrace')]),
 'C10': dict(models=['MC_Gadget', ('MC_Gadget', {'cfg': 'MC_Gadget3'}), ('MC_Gadget', {'cfg': 'MC_Gadget4'})], models_thorough=[('MC_Gadget', {'cfg': 'MC_Gadget2'})],
             gens=[dict(module='GenRgsw', num=(60, 600), depth=30)],
             traces=[dict(bin='c10', sub='C10', module='LatTrace')]),
 'C11': dict(models=['MC_Ring', 'RingSelfTest'], models_thorough=[('MC_Ring', {'cfg': 'MC_Ring2'})],
             gens=[dict(module='GenRing', num=(90, 900), depth=60)],
             traces=[dict(bin='c11', sub='C11', module='RingTrace'), dict(bin='cn', sub='ring', module='RingTrace', features='concrete')]),
 'C12': dict(models=['MC_Ntt', ('MC_Ntt', {'cfg': 'MC_Ntt1'}), 'RingSelfTest'], models_thorough=[('MC_Ntt', {'cfg': 'MC_Ntt3'})],
             traces=[dict(bin='c12', sub='C12', module='RingTrace'), dict(bin='cn', sub='ntt', module='RingTrace', features='concrete')]),
 'C13': dict(models=['MC_TableCache', ('MC_TableCache', {'cfg': 'MC_TableCacheRace', 'expect': 12}), ('MC_TableCache', {'cfg': 'MC_TableCacheLock', 'expect': 11})],
             models_thorough=[('MC_TableCache', {'cfg': 'MC_TableCacheT'})],
             gens=[dict(module='GenCache', num=(200, 1500), depth=30)],
             traces=[dict(bin='cache', sub='C13', module='CacheTrace'),
                     dict(bin='cache', sub='miri', module='CacheTrace', miri=(14, 256), args=['worker', 'storm'])]),
 'C14': dict(models=['MC_Barrett', ('ArithSelfTest', {'min': 8})], models_thorough=[('MC_Barrett', {'cfg': 'MC_Barrett7', 'workers': 8})], traces=[dict(bin='c14', sub='C14', module='ModulusTrace'),
                    dict(bin='c14n', sub='nightly', module='ModulusTrace', features='nightly')]),
 'C15': dict(models=['MC_Field'], traces=[dict(bin='c15', sub='C15', module='FieldTrace')]),
 'C16': dict(models=['MC_NumTheory'], traces=[dict(bin='c16', sub='C16', module='NumTrace')]),
 'C17': dict(models=['MC_Sampling'], traces=[dict(bin='c17', sub='C17', module='SampleTrace')]),
 'C18': dict(models=['MC_Aes', 'MC_Prg'],
             gens=[dict(module='GenPrg', num=(60, 600), depth=40)],
             traces=[dict(bin='c18', sub='C18', module='PrgTrace')]),
 'C19': dict(models=['MC_Params'], traces=[dict(bin='c19', sub='C19', module='FheTrace')]),
 'C20': dict(models=['MC_Eval', ('MC_Eval', {'cfg': 'MC_EvalShared', 'expect': 12})], models_thorough=[('MC_Eval', {'cfg': 'MC_EvalT'})],
             gens=[dict(module='GenEval', num=(90, 800), depth=50)],
             traces=[dict(bin='c20', sub='C20', module='EvalTrace')]),
 'C21': dict(models=['MC_Fresh', ('MC_Fresh', {'cfg': 'MC_Fresh2'}), ('MC_Fresh', {'cfg': 'MC_FreshReuse', 'expect': 12})],
             traces=[dict(bin='c21', sub='C21', module='FreshTrace')]),
 'C22': dict(models=['MC_Derive'], gens=[dict(module='GenDerive', num=(5, 16), depth=30)],
             traces=[dict(bin='derive', sub='C22', module='DeriveTrace'),
                     dict(bin='derive', sub='ntt', module='RingTrace'), dict(bin='derive', sub='dec', module='LatTrace')]),
 'C23': dict(models=['MC_Count', ('MC_Count', {'cfg': 'MC_CountRace', 'expect': 12})], gens=[dict(module='GenCount', num=(150, 3000), depth=40)],
             traces=[dict(bin='c23', sub='C23', module='CountTrace', features='count')]),
}

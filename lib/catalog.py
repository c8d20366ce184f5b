"""Fixed packet definitions used by the packet checks (groups -> definition lists)."""
from defs import norm
import json, os, re

def _tables():
    s = open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'Fields.tla')).read()
    out = []
    for n in ('Cif0Table', 'Cif1Table', 'Cif2Table'):
        body = s[s.index(n + ' =='):]
        body = body[:body.index('>> >>')]
        out.append(re.findall(r'<<"(\w+)", *\d+, *"(\w+)"', body))
    return out
C0, C1, C2 = _tables()
N0 = [n for n, _ in C0]
N1 = [n for n, _ in C1 if n not in ('sector_step_scan', 'index_list')]
N2 = [n for n, _ in C2]

def req(*ns): return [dict(n=n, mode='required') for n in ns]
def opt(*ns): return [dict(n=n, mode='optional') for n in ns]
def mix(ns): return [dict(n=n, mode='required' if i % 2 else 'optional') for i, n in enumerate(ns)]

CLS = dict(oui=[0x12, 0x34, 0x56], pc=0x789A, ic=0xBCDE)
DIO_A = [['flag_a', 'bool', 1], ['ind_b', 'ind', 2], ['num_c', 'int', 5], ['sel_d', 'enum', 5], ['flag_e', 'bool', 1], ['num_f', 'int', 12]]
DIO_B = [['one_a', 'bool', 1], ['num_b', 'int', 30], ['flag_c', 'bool', 1], ['ind_d', 'ind', 2], ['num_e', 'int', 20]]

ATTRS = ['current_value', 'mean_value', 'median_value', 'standard_deviation', 'max_value', 'min_value', 'precision', 'accuracy',
         'first_derivative', 'second_derivative', 'third_derivative', 'probability', 'belief']

GROUPS = {
 'attr': [
   dict(name='AttReq', kind='context', tsi='utc', cif0=req(*N0[::2]), cif1=req('polarization', 'spatial_scan_type', 'range', 'v49_spec_compliance', 'aux_gain'),
        cif2=req('cited_sid', 'controller_uuid'), cif7=['current_value', 'mean_value', 'precision']),
   dict(name='AttOpt', kind='context', cif0=opt(*N0[1::2]), cif1=opt(*N1[::3]), cif2=opt('bind', 'controllee_uuid'), cif7=['current_value', 'max_value', 'min_value']),
   dict(name='AttWords', kind='context', cif0=opt('bandwidth', 'gain', 'temperature', 'over_range_count'), cif1=req('health_status'),
        cif7=['current_value', 'probability', 'belief']),
   dict(name='AttVar', kind='xcontext', cif0=opt('gps_ascii', 'context_association_lists', 'gain', 'signal_data_format'),
        cif1=[dict(n='index_list', x='16', mode='required'), dict(n='discrete_io_32', dio=DIO_A), dict(n='buffer_size', x='difi'), dict(n='spectrum')],
        cif7=['current_value', 'median_value', 'belief']),
   dict(name='AttAll', kind='context', cif0=opt('reference_level') + req('rf_ref_frequency', 'device_id'), cif2=opt('mode_id'), cif7=ATTRS),
   dict(name='AttOne', kind='context', cif1=opt('phase_offset', 'beam_width', 'discrete_io_64'), cif7=['current_value']),
   dict(name='AttCtl', kind='control', ctee='word', cam=[['action_mode', 'execute'], ['permit_partial', 'true']],
        cif0=req('bandwidth') + opt('gain', 'reference_level'), cif1=opt('compression_point'), cif7=['current_value', 'accuracy', 'standard_deviation']),
   dict(name='AttQry', kind='control', cam=[['action_mode', 'none'], ['req_s', 'true']], cif0=opt('bandwidth', 'gain'), cif1=opt('aux_gain'), cif7=['current_value', 'mean_value']),
   # the same fields without attributes
   dict(name='AttNone', kind='context', cif0=opt('reference_level', 'gain') + req('rf_ref_frequency', 'device_id'), cif2=opt('mode_id')),
 ],
 'ctx0': [
   dict(name='CtxOpt', kind='context', cif0=opt(*N0)),
   dict(name='CtxReq', kind='context', cif0=req(*N0), clsid=CLS, tsi='utc', tsf='picoseconds'),
   dict(name='CtxBare', kind='context', sid='word', sidv=[0xDE, 0xAD, 0xBE, 0xEF]),
 ],
 'ctx12': [
   dict(name='CtxMix', kind='context', tsm='coarse', tsi='gps', clsid=dict(oui=[0xFF, 0x00, 0xEE], pc=1),
        cif0=mix(N0[::3]), cif1=opt(*N1[::2]), cif2=opt(*N2[::3])),
   dict(name='CtxTwo', kind='context', cif2=opt(*N2), cif0=opt('gain', 'bandwidth')),
   dict(name='CtxOne', kind='context', cif1=opt(*N1)),
   dict(name='CtxReq12', kind='context', tsf='samples', cif1=req(*N1), cif2=mix(N2)),
 ],
 'ctxvar': [
   dict(name='CtxVar', kind='context', tsi='utc', cif0=opt('temperature', 'gps_ascii', 'context_association_lists', 'gain'),
        cif1=[dict(n='phase_offset'), dict(n='spectrum'), dict(n='index_list', x='16', mode='required'), dict(n='buffer_size')],
        cif2=opt('cited_sid', 'controller_uuid')),
   dict(name='CtxVarReq', kind='xcontext', tsm='any', tsi='any', tsf='any',
        cif0=req('gps_ascii', 'context_association_lists') + opt('ephemeris_ref_id'),
        cif1=[dict(n='index_list', x='8', mode='required'), dict(n='health_status', mode='required')]),
   dict(name='CtxDio', kind='context', sid='user', sidparts=[['lane', 5], ['unit', 11], ['site', 16]],
        cif0=[dict(n='reference_level', x='difi'), dict(n='state_event_indicators', mode='required')],
        cif1=[dict(n='index_list', x='32', mode='required'), dict(n='discrete_io_32', dio=DIO_A),
              dict(n='discrete_io_64', dio=DIO_B, mode='required'), dict(n='version_information'), dict(n='buffer_size', x='difi')]),
 ],
 'ctl': [
   dict(name='Ctl', kind='control', sid='word', clsid=CLS, tsi='utc', tsf='picoseconds', ctee='word', cter='uuid',
        cam=[['action_mode', 'execute'], ['permit_partial', 'true'], ['req_v', 'optional'], ['req_x', 'optional'],
             ['req_s', 'required'], ['req_w', 'true'], ['req_er', 'true']],
        cif0=opt('bandwidth', 'rf_ref_frequency', 'gain', 'sample_rate', 'gps_ascii', 'reference_level'),
        cif1=opt('discrete_io_32', 'aux_gain', 'health_status'), cif2=opt('cited_sid', 'mode_id')),
   dict(name='CtlAck', kind='ack', to='Ctl'),
   dict(name='Qry', kind='control', cter='word', ctee='uuid', cam=[['action_mode', 'none'], ['req_s', 'true']],
        cif0=opt('bandwidth', 'gain', 'temperature') + req('sample_rate'), cif1=opt('aux_gain', 'range')),
   dict(name='QryAck', kind='ack', to='Qry'),
   dict(name='XCtl', kind='xcontrol', tsf='free-running', cam=[['action_mode', 'dry-run'], ['req_x', 'true'], ['req_w', 'required']],
        cif0=mix(['bandwidth', 'reference_level', 'gain', 'over_range_count'])),
   dict(name='XCtlAck', kind='xack', to='XCtl'),
   dict(name='XBare', kind='xcontrol', ctee='uuid', cam=[['action_mode', 'execute'], ['req_v', 'true']]),
 ],
 'weif': [
   dict(name='WCtl', kind='control', ctee='uuid', cter='word',
        cam=[['action_mode', 'execute'], ['req_v', 'true'], ['req_x', 'optional'], ['req_w', 'true'], ['req_er', 'true']],
        cif0=opt('bandwidth', 'gain', 'context_association_lists'), cif1=opt('range', 'spectrum'), cif2=opt('bind', 'mode_id')),
   dict(name='WCtlAck', kind='ack', to='WCtl'),
   dict(name='ECtl', kind='control', cam=[['action_mode', 'execute'], ['req_x', 'true'], ['req_er', 'true']],
        cif0=opt('gain', 'temperature'), cif2=opt('bind', 'track_id')),
   dict(name='ECtlAck', kind='ack', to='ECtl'),
   dict(name='VCtl', kind='control', clsid=CLS, cam=[['action_mode', 'execute'], ['req_v', 'true'], ['req_w', 'true']],
        cif0=opt(*N0), cif1=opt(*N1), cif2=opt(*N2)),
   dict(name='VCtlAck', kind='ack', to='VCtl'),
 ],
 'data': [
   dict(name='Dat', kind='data'),
   dict(name='DatId', kind='data', sid='word', clsid=dict(oui=[0, 0x12, 0xA0], pc=0xFFFF), tsi='utc', tsf='picoseconds', trailer=dict()),
   dict(name='DatSf', kind='data', sid='user', sidparts=[['low', 3], ['mid', 13], ['top', 16]], sot='spectrum', tsf='any',
        trailer=dict(sf='optional', user=[['user_defined_a', 'ind', 1], ['user_defined_b', 'ind', 1]])),
   dict(name='DatUsr', kind='data', sid='word', sidv=[1, 2, 3, 4], tsi='any', clsid=dict(oui=[1, 2, 3]),
        trailer=dict(user=[['user_defined_enum', 'enum', 6], ['my_user_defined', 'ind', 1]])),
   dict(name='DatSfe', kind='data', sid='word', trailer=dict(sf='required', user=[['user_defined_c', 'enum', 4]])),
   dict(name='DatStd', kind='data', sot='time', trailer=dict(sf='optional')),
 ],
}

# classes that differ from a base class in one attribute each
def _near():
    base = dict(kind='context', clsid=CLS, tsi='utc', tsf='picoseconds', cif0=opt('bandwidth'))
    var = dict(Base={}, Oui=dict(clsid={**CLS, 'oui': [0x12, 0x34, 0x57]}), Pc=dict(clsid={**CLS, 'pc': 0x799A}),
               Ic=dict(clsid={**CLS, 'ic': 0xBCDF}), NoCls=dict(clsid=None), Tsi=dict(tsi='gps'), TsiO=dict(tsi='other'),
               TsiN=dict(tsi=None), Tsf=dict(tsf='samples'), TsfF=dict(tsf='free-running'), TsfN=dict(tsf=None), TsiA=dict(tsi='any'),
               TsfA=dict(tsf='any'), Tsm=dict(tsm='coarse'), TsmF=dict(tsm='fine'), TsmA=dict(tsm='any'), X=dict(kind='xcontext'),
               C1=dict(cif1=opt('phase_offset')), Dat=dict(kind='data', sid='word', cif0=None),
               DatS=dict(kind='data', cif0=None), DatT=dict(kind='data', sid='word', cif0=None, trailer=dict()),
               DatQ=dict(kind='data', sid='word', cif0=None, sot='spectrum'))
    ctl = dict(kind='control', tsi='utc', ctee='word', cter='word', cif0=opt('bandwidth'),
               cam=[['action_mode', 'execute'], ['req_v', 'true'], ['req_x', 'optional']])
    cv = dict(Ctl={}, CtlU=dict(ctee='uuid'), CtlN=dict(cter=''), CtlD=dict(cam=[['action_mode', 'dry-run'], ['req_v', 'true'], ['req_x', 'optional']]),
              CtlP=dict(cam=[['action_mode', 'execute'], ['req_v', 'true'], ['req_x', 'optional'], ['permit_partial', 'true']]),
              CtlW=dict(cam=[['action_mode', 'execute'], ['req_v', 'true'], ['req_x', 'true'], ['permit_warnings', 'true']]),
              CtlX=dict(kind='xcontrol'))
    out = []
    for b, vs in ((base, var), (ctl, cv)):
        for n, v in vs.items():
            d = {k: x for k, x in {**b, **v}.items() if x is not None}
            out.append(dict(name='Near' + n, **d))
    return out + [dict(name='NearCtlAck', kind='ack', to='NearCtl'), dict(name='NearCtlUAck', kind='ack', to='NearCtlU')]
GROUPS['near'] = _near()

# one class per fixed-point quantity that is a field of its own
FX = {'bandwidth': 0, 'if_ref_frequency': 0, 'rf_ref_frequency': 0, 'rf_ref_frequency_offset': 0, 'if_band_offset': 0,
      'reference_level': 0, 'sample_rate': 0, 'temperature': 0, 'phase_offset': 1, 'range': 1, 'compression_point': 1,
      'aux_frequency': 1, 'aux_bandwidth': 1, 'buffer_size': 1}
GROUPS['fx'] = [dict(name='Fx' + ''.join(w.title() for w in n.split('_')), kind='context', **{f'cif{i}': req(n)}) for n, i in FX.items()]

def group(g):
    return [norm(d) for d in GROUPS[g]]

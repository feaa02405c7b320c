"""C18: the data of the shipped technologies, and TechInfo's view of them."""
import json
import os
import random
from vlib import quiet_log, PB_DIR
from rcx import shipped_tech

PDKS = dict(sky130A=dict(nloc=2, lo=825, hi=1045), ihp_sg13g2=dict(nloc=1, lo=995, hi=1005))
KIND = dict(metal_layer='metal', sidewall_dielectric_layer='sidewall', conformal_dielectric_layer='conformal', nwell_layer='nwell',
            simple_dielectric_layer='simple', diffusion_layer='diffusion', field_oxide_layer='fox', substrate_layer='subs')


def enum(msg, field, prefix):
    f = msg.DESCRIPTOR.fields_by_name[field]
    n = f.enum_type.values_by_number[getattr(msg, field)].name
    assert n.startswith(prefix), n
    return n[len(prefix):]


def pair(m, f):
    return [getattr(m, f).layer, getattr(m, f).datatype] if m.HasField(f) else []


def L(v):
    return max(-200000, min(200000, round(v * 10000)))


def K(v):
    return max(-20000000, min(20000000, round(v * 1000)))


def data(t, **par):
    canon = [dict(n=q.name, pur=enum(q, 'purpose', 'PURPOSE_'), g=pair(q, 'drw_gds_pair'), pg=pair(q, 'pin_gds_pair'), lg=pair(q, 'label_gds_pair')) for q in t.layers]
    comp = [dict(n=q.layer_info.name, kind=enum(q, 'kind', 'KIND_'), pur=enum(q.layer_info, 'purpose', 'PURPOSE_'), g=pair(q.layer_info, 'drw_gds_pair'),
                 o=q.original_layer_name, ob=q.original_layer_name.split('.')[0]) for q in t.lvs_computed_layers]
    stack = []
    for e in t.process_stack.layers:
        w = e.WhichOneof('parameters')
        p = getattr(e, w)
        r = dict(n=e.name, kind=KIND[w], z=0, th=0, k=0, over=0, nom=0, ref='', con='', below='', above='', cth=0, cw=0)
        for f, a, s in (('z', 'z', L), ('thickness', 'th', L), ('dielectric_k', 'k', K), ('thickness_over_metal', 'over', L), ('height_above_metal', 'over', L),
                        ('thickness_where_no_metal', 'nom', L), ('reference', 'ref', str)):
            if hasattr(p, f):
                r[a] = s(getattr(p, f))
        if hasattr(p, 'contact_above') and p.HasField('contact_above'):
            c = p.contact_above
            r.update(con=c.name, below=c.layer_below, above=c.metal_above, cth=L(c.thickness), cw=L(c.width))
        stack.append(r)
    pp = t.process_parasitics
    C = pp.capacitance
    R = pp.resistance
    return dict(canon=canon, comp=comp, stack=stack,
                rl=[dict(n=q.layer_name, r=round(q.resistance)) for q in R.layers],
                rv=[dict(n=q.via_name, r=round(q.resistance)) for q in R.vias],
                rc=[dict(n=q.contact_name, dev=q.device_layer_name, above=q.layer_above, r=round(q.resistance)) for q in R.contacts],
                sub=[dict(n=q.layer_name, a=K(q.area_capacitance), p=K(q.perimeter_capacitance)) for q in C.substrates],
                ovl=[dict(t=q.top_layer_name, b=q.bottom_layer_name, c=K(q.capacitance)) for q in C.overlaps],
                sw=[dict(n=q.layer_name, c=K(q.capacitance)) for q in C.sidewalls],
                sov=[dict(i=q.in_layer_name, o=q.out_layer_name, c=K(q.capacitance)) for q in C.sideoverlaps],
                halo=K(pp.side_halo), **par)


def altered(t, rng):
    """another technology: rows lost, doubled, reordered, other values"""
    C, R = t.process_parasitics.capacitance, t.process_parasitics.resistance
    tables = [t.layers, t.lvs_computed_layers, C.substrates, C.overlaps, C.sidewalls, C.sideoverlaps, R.layers, R.contacts, R.vias]
    for tb in tables:
        rows = [type(q).FromString(q.SerializeToString()) for q in tb]
        if rng.random() < 0.5:
            rng.shuffle(rows)
        rows = [q for q in rows if rng.random() < 0.8]
        del tb[:]
        tb.extend(rows)
    for q in t.lvs_computed_layers:
        if rng.random() < 0.3:
            q.layer_info.drw_gds_pair.datatype += rng.randint(1, 9)
    for tb in (C.overlaps, C.sidewalls, C.sideoverlaps):
        for q in tb:
            q.capacitance = rng.randint(1, 400) / 4
    for q in C.substrates:
        q.area_capacitance, q.perimeter_capacitance = rng.randint(1, 400) / 4, rng.randint(1, 400) / 4
    for tb in (R.layers, R.contacts, R.vias):
        for q in tb:
            q.resistance = rng.randint(1, 90000)
    for e in t.process_stack.layers:
        p = getattr(e, e.WhichOneof('parameters'))
        if hasattr(p, 'dielectric_k'):
            p.dielectric_k = rng.randint(8, 64) / 8
    return t


def answers(t, d, rng, n):
    """questions put to TechInfo"""
    from klayout_pex.tech_info import TechInfo
    from klayout_pex.util.multiple_choice import MultipleChoicePattern
    diel = sorted({e['n'] for e in d['stack'] if e['kind'] in ('simple', 'conformal', 'sidewall')})
    base, sel = rng.choice(['all', 'none']), rng.sample(diel, rng.randint(0, 2))
    pat = ','.join([base] + [('-' if base == 'all' else '+') + x for x in sel])
    ti = TechInfo(tech=t, dielectric_filter=MultipleChoicePattern(pattern=pat) if rng.random() < 0.8 or sel or base == 'none' else None)
    drawn, comp = [q['n'] for q in d['canon']], [q['n'] for q in d['comp']]
    cons = sorted({q['con'] for q in d['stack']} - {''})
    stack = sorted({q['n'] for q in d['stack']})
    pairs = [q['g'] for q in d['canon'] + d['comp']]
    sov, ovl = [(q['i'], q['o']) for q in d['sov']], [(q['t'], q['b']) for q in d['ovl']]
    names = drawn + comp + stack + ['unknown']

    def contact(c, ends=True):
        return ([c.name] + ([c.layer_below, c.metal_above] if ends else [])) if c is not None and c.name else []

    def info(q):
        return [] if q is None else [q.layer_info.name, enum(q, 'kind', 'KIND_'), q.original_layer_name]

    def lay(q):
        return [] if q is None else [q.name, enum(q, 'purpose', 'PURPOSE_')]

    def val(q, *fs):
        return [] if q is None else [f(getattr(q, a)) for a, f in fs]
    kinds = dict(metal=lambda: ti.process_metal_layers, diffusion=lambda: ti.process_diffusion_layers, subs=lambda: [ti.process_substrate_layer], fox=lambda: [ti.field_oxide_layer])
    qs = []

    def ask(f, a, r):
        qs.append(dict(f=f, a=list(a), r=list(r)))
    for k in kinds:
        ask('kind', [k], [e.name for e in kinds[k]()])
    ask('dielectrics', [base] + sel, [e.name for e in ti.filtered_dielectric_layers])
    for _ in range(n):
        x = rng.choice(names)
        ask('gds_pair', [x], ti.gds_pair(x) or [])
        ask('computed', [x], info(ti.computed_layer_info_by_name.get(x)))
        ask('drawn', [x], lay(ti.layer_info_by_name.get(x)))
        g = rng.choice(pairs + [[1, 99]])
        y = ti.canonical_layer_name_by_gds_pair.get(tuple(g))
        ask('canonical', g, [] if y is None else [y])
        ask('computed_at', g, info(ti.computed_layer_info_by_gds_pair.get(tuple(g))))
        ask('drawn_at', g, lay(ti.layer_info_by_gds_pair.get(tuple(g))))
        if base == 'all' and not sel:
            x = rng.choice(diel)
            ask('permittivity', [x], [K(ti.dielectric_by_name[x])])
        x = rng.choice(stack)
        ask('contact_of_device', [x], contact(ti.contact_by_device_lvs_layer_name.get(x), False))
        x = rng.choice(cons + ['unknown'])
        ask('contact', [x], contact(ti.contact_by_contact_lvs_layer_name.get(x)))
        ask('via_ends', [x], ti.bottom_and_top_layer_name_by_via_computed_layer_name.get(x, []))
        x = rng.choice(drawn + ['unknown'])
        ask('sheet', [x], val(ti.layer_resistance_by_layer_name.get(x), ('resistance', round)))
        ask('substrate', [x], val(ti.substrate_cap_by_layer_name.get(x), ('area_capacitance', K), ('perimeter_capacitance', K)))
        ask('sidewall', [x], val(ti.sidewall_cap_by_layer_name.get(x), ('capacitance', K)))
        x = rng.choice([q['n'] for q in d['rv']] + ['unknown'])
        ask('via', [x], val(ti.via_resistance_by_layer_name.get(x), ('resistance', round)))
        x = rng.choice([q['dev'] for q in d['rc']] + ['unknown'])
        ask('device_contact', [x], val(ti.contact_resistance_by_device_layer_name.get(x), ('resistance', round), ('contact_name', str)))
        x, y = rng.choice(ovl + [(rng.choice(drawn), rng.choice(drawn + ['VSUBS']))])
        ask('overlap', [x, y], val(ti.overlap_cap_by_layer_names.get(x, {}).get(y), ('capacitance', K)))
        x, y = rng.choice(sov + [(rng.choice(drawn), rng.choice(drawn + ['VSUBS']))])
        ask('fringe', [x, y], val(ti.side_overlap_cap_by_layer_names.get(x, {}).get(y), ('capacitance', K)))
        from klayout_pex_protobuf.kpex.tech import process_stack_pb2 as ps, process_parasitics_pb2 as pp
        r, w = 1000 * rng.randint(1, 200), rng.randint(1, 90)
        c = ps.ProcessStackInfo.Contact(width=w / 100)
        ask('per_area', [r, w], [round(ti.milliohm_by_cnt_to_ohm_by_square_for_via(c, pp.ResistanceInfo.ViaResistance(resistance=r)) * 10000)])
        ask('per_area', [r, w], [round(ti.milliohm_by_cnt_to_ohm_by_square_for_contact(c, pp.ResistanceInfo.ContactResistance(resistance=r)) * 10000)])
        ask('ohm', [r], [round(ti.milliohm_to_ohm(r))])
    return qs


def job(spec):
    pdk, seed, n, whole = spec
    quiet_log()
    rng = random.Random(seed)
    t = shipped_tech(pdk)
    if not whole:
        altered(t, rng)
    d = data(t, **PDKS[pdk])
    return dict(t=d, q=answers(t, d, rng, n), whole=whole)


def main(c):
    c.model('TechModel', f"SPECIFICATION Spec\nCONSTANTS NM = {c.n(4, 5)} Wide = {'TRUE' if c.thorough else 'FALSE'}\nINVARIANTS Sound Noticed\nCHECK_DEADLOCK FALSE\n")
    specs = [(pdk, 0, 300, True) for pdk in PDKS] + [(c.rng.choice(list(PDKS)), c.rng.random(), 20, False) for _ in range(c.n(200, 4000))]
    with c.pool() as pool:
        recs = pool.map(job, specs)
    c.cov['questions'] = sum(len(r['q']) for r in recs)
    c.sample(dict(technology='ihp_sg13g2', questions=recs[1]['q'][:10]))

    def describe(i, cl):
        return f"{cl}: {(list(PDKS)[i] + ' as shipped') if i < len(PDKS) else 'altered technology'}: {[q for q in recs[i]['q'] if q['f'] == cl][:30]}"
    c.validate('TechTrace', recs, describe=describe)

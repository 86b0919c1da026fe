"""Fixture schemas shared by the codec checks."""
from dsl import *

# field numbers around every length of a tag; NUMS[k:] and NUMS[::-1] give the same kinds of fields other lengths
NUMS = [1, 2, 15, 16, 17, 127, 128, 2047, 2048, 16383, 18999, 20000, 262143, 262144, 33554432, 268435456, 536870911]
NUMERIC = [s for s in SCALARS if s not in ('string', 'bytes')]


def vals_enum(name, **kw):
    return Enum(name, [('ZERO', 0), ('ONE', 1), ('TWO', 2), ('P127', 127), ('P128', 128), ('BIG', 2147483647),
                       ('NEG', -1), ('MIN', -2147483648)], **kw)


def small_enum(name, **kw):
    return Enum(name, [('S_ZERO', 0), ('S_ONE', 1), ('S_MAX', 127), ('S_NEG', -1), ('S_MIN', -128)], **kw)


def scalar2():
    e = vals_enum('E')
    sub = Msg('Sub', [F('a', 'int32', 1, 'optional'), F('b', 'string', 2, 'optional'),
                      F('r', 'int32', 3, 'repeated')])

    def group(label, types, nums=NUMS, **kw):
        out = []
        assert len(types) <= len(nums)
        for t, n in zip(types, nums):
            nm = t if isinstance(t, str) else t.name.lower()
            out.append(F('f_' + nm, t, n, label, **kw))
        return out

    return File('fx_scalar2', 'Vt.Scalar', 'proto2', enums=[e], msgs=[
        sub,
        Msg('Empty'),
        Msg('Opt', group('optional', SCALARS + [e, sub])),
        Msg('Req', group('required', SCALARS + [e, sub], NUMS[::-1])),
        Msg('Rep', group('repeated', SCALARS + [e, sub], NUMS[8:] + NUMS[:8])),
        Msg('Pak', group('repeated', NUMERIC + [e], NUMS[::-1], packed=True)),
        Msg('Dflt', [F('i', 'int32', 1, 'optional', default=('-5', 'Val(-5)')),
                     F('u', 'uint64', 2, 'optional', default=('7', 'Val(7)')),
                     F('b', 'bool', 3, 'optional', default=('true', 'Val(1)')),
                     F('s', 'string', 4, 'optional', default=('"dflt"', 'Val("dflt")')),
                     F('e', e, 5, 'optional', default=('TWO', 'Val(2)')),
                     F('d', 'double', 6, 'optional', default=('1.5', 'Val(1.5)')),
                     F('ri', 'int32', 7, 'required', default=('9', 'Val(9)')),
                     F('n', 'int32', 8, 'optional')]),
    ])


def proto3():
    top = Enum('Color', [('COLOR_NONE', 0), ('COLOR_RED', 1), ('COLOR_blue', 5), ('COLOR_CRIMSON', 1)], alias=True)
    ie = Enum('Kind', [('K_ZERO', 0), ('K_NEG', -7), ('K_BIG', 300)])
    deep = Msg('Deep', [F('v', 'sint32', 1), F('t', 'string', 2)])
    inner = Msg('Inner', [F('k', ie, 1), F('d', deep, 2), F('ds', deep, 3, 'repeated')], msgs=[deep], enums=[ie])
    return File('fx_proto3', 'vt.p3', 'proto3', enums=[top], msgs=[
        Msg('P3', [F('i', 'int32', 1), F('s', 'string', 2), F('b', 'bytes', 3), F('flag', 'bool', 4),
                   F('c', top, 5), F('in', inner, 6), F('oi', 'int32', 7, 'optional'),
                   F('os', 'string', 8, 'optional'), F('ri', 'int32', 9, 'repeated'),
                   F('rs', 'string', 10, 'repeated'), F('rc', top, 11, 'repeated'),
                   F('ru', 'uint64', 12, 'repeated', packed=False), F('rb', 'bool', 13, 'repeated'),
                   F('rd', 'double', 14, 'repeated'), F('rin', inner, 15, 'repeated'),
                   F('k', ie, 16), F('rk', ie, 17, 'repeated', packed=False),
                   F('dd', deep, 18)], msgs=[inner]),
    ])


def comp():
    e = Enum('En', [('EN_A', 0), ('EN_B', 1), ('EN_N', -3)])
    sub = Msg('Sub', [F('x', 'int32', 1, 'optional'), F('s', 'string', 2, 'optional')])
    node = Msg('Node', [F('v', 'int32', 1, 'optional')])
    node.items += [F('next', node, 2, 'optional'), F('kids', node, 3, 'repeated'), F('tag', 'string', 4, 'optional')]
    a = Msg('CycA', [F('i', 'int32', 1, 'optional')])
    b = Msg('CycB', [F('i', 'int32', 1, 'optional'), F('a', a, 2, 'optional'), F('ra', a, 3, 'repeated')])
    a.items.append(F('b', b, 2, 'optional'))
    one = Msg('One', [
        F('before', 'int32', 1, 'optional'),
        Oneof('which', [F('o_i', 'int32', 2), F('o_s', 'string', 3), F('o_by', 'bytes', 4), F('o_m', sub, 5),
                        F('o_e', e, 6), F('o_d', 'double', 7), F('o_b', 'bool', 8), F('o_si', 'sint64', 9),
                        F('o_fx', 'fixed32', 16), F('o_u', 'uint64', 536870911), F('o_fl', 'float', 17)]),
        F('mid', 'string', 10, 'optional'),
        Oneof('other', [F('p_x', 'string', 11), F('p_y', 'string', 12), F('p_1', 'int32', 13), F('p_2', 'int32', 14),
                        F('p_m', sub, 268435456)]),
        F('last', one_sub_dummy(), 20, 'optional'),
    ])
    one.items[-1].type = sub
    mapk = Msg('MapK', [Map('m_' + k, k, 'int32', NUMS[-1 - i]) for i, k in enumerate(
        ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64',
         'bool', 'string'])])
    mapv = Msg('MapV', [Map('v_' + t, 'string' if i % 2 else 'int32', t, i + 1) for i, t in enumerate(SCALARS)] +
               [Map('v_sub', 'string', sub, 268435455), Map('v_en', 'int32', e, 536870911), F('after', 'int32', 18, 'optional')])
    hold = Msg('Hold', [F('one', one, 1, 'optional'), F('ones', one, 2, 'repeated'), F('mk', mapk, 3, 'optional'),
                        Map('mo', 'string', one, 4), F('node', node, 5, 'optional')])
    return File('fx_comp', 'Vt.Comp', 'proto2', enums=[e], msgs=[sub, node, a, b, one, mapk, mapv, hold])


def one_sub_dummy():
    return 'int32'


def opts():
    e8 = small_enum('E8', storage='int8', style='comment')
    eu8 = Enum('EU8', [('U_Z', 0), ('U_1', 1), ('U_255', 255)], storage='uint8')
    e16 = Enum('E16', [('W_Z', 0), ('W_MAX', 32767), ('W_MIN', -32768)], storage='int16')
    eu16 = Enum('EU16', [('X_Z', 0), ('X_MAX', 65535)], storage='uint16', style='comment')
    ints = Msg('Ints', [])
    n = 1
    for base, ts in (('int32', ['int8', 'int16']), ('uint32', ['uint8', 'uint16']), ('sint32', ['int8', 'int16']),
                     ('int64', ['int8', 'int16', 'int32']), ('uint64', ['uint8', 'uint16', 'uint32']),
                     ('sint64', ['int8', 'int16', 'int32']), ('sfixed32', ['int8', 'int16']),
                     ('fixed32', ['uint8', 'uint16']), ('sfixed64', ['int16', 'int32']),
                     ('fixed64', ['uint8', 'uint32'])):
        for t in ts:
            ints.items.append(F('%s_%s' % (base, t), base, n, 'optional', opts={'type': t},
                                style='inline' if n % 2 else 'comment'))
            n += 1
    rints = Msg('RInts', [F('r8', 'int32', 1, 'repeated', opts={'type': 'int8'}),
                          F('p8', 'int32', 2, 'repeated', packed=True, opts={'type': 'int8'}),
                          F('pu16', 'uint64', 3, 'repeated', packed=True, opts={'type': 'uint16'}, style='inline'),
                          F('ps16', 'sint32', 4, 'repeated', packed=True, opts={'type': 'int16'}, style='inline'),
                          F('pf8', 'fixed32', 5, 'repeated', packed=True, opts={'type': 'uint8'}, style='inline'),
                          F('e8', e8, 6, 'optional'), F('re8', e8, 7, 'repeated'), F('pe8', e8, 8, 'repeated', packed=True),
                          F('eu8', eu8, 9, 'optional'), F('e16', e16, 10, 'optional'), F('eu16', eu16, 11, 'optional'),
                          F('reu16', eu16, 12, 'repeated')])
    bits = Msg('Bits', [F('i1', 'int32', 1, 'required', opts={'type': 'int8:1'}),
                        F('i2', 'int32', 2, 'required', opts={'type': 'int8:2'}),
                        F('u1', 'uint32', 3, 'required', opts={'type': 'uint8:1'}),
                        F('u4', 'uint32', 4, 'required', opts={'type': 'uint8:4'}),
                        F('s3', 'sint32', 5, 'required', opts={'type': 'int8:3'}),
                        F('u9', 'uint32', 6, 'required', opts={'type': 'uint16:9'}),
                        F('i12', 'int32', 7, 'required', opts={'type': 'int16:12'}),
                        F('i31', 'int32', 8, 'required', opts={'type': 'int32:31'}, style='inline'),
                        F('u33', 'uint64', 9, 'required', opts={'type': 'uint64:33'}, style='inline'),
                        F('i63', 'int64', 10, 'required', opts={'type': 'int64:63'}),
                        F('i64', 'int64', 11, 'required', opts={'type': 'int64:64'}),
                        F('f5', 'fixed32', 12, 'required', opts={'type': 'uint8:5'}),
                        F('g6', 'sfixed32', 13, 'required', opts={'type': 'int8:6'}),
                        F('f40', 'fixed64', 14, 'required', opts={'type': 'uint64:40'}),
                        F('z40', 'sint64', 15, 'required', opts={'type': 'int64:40'})])
    arr = Msg('Arr', [F('a4', 'int32', 1, 'repeated', packed=True, opts={'repeated': 'std::array<$, 4>'}),
                      F('f3', 'fixed32', 2, 'repeated', packed=True, opts={'repeated': 'std::array<$, 3>'}),
                      F('d2', 'double', 3, 'repeated', packed=True, opts={'repeated': 'std::array<$, 2>'}),
                      F('b5', 'bool', 4, 'repeated', packed=True, opts={'repeated': 'std::array<$, 5>'}),
                      F('s2', 'sint64', 5, 'repeated', packed=True, opts={'repeated': 'std::array<$, 2>'}),
                      F('one', 'uint32', 6, 'repeated', packed=True, opts={'repeated': 'std::array<$, 1>'}),
                      F('v', 'int32', 7, 'optional')])
    fixed = Msg('Fixed', [F('s4', 'string', 1, 'optional', opts={'string': 'std::array<$, 4>'}),
                          F('b3', 'bytes', 2, 'optional', opts={'bytes': 'std::array<$, 3>'}),
                          F('b8', 'bytes', 3, 'optional', opts={'bytes': 'std::array<$, 8>'}),
                          F('rs4', 'string', 4, 'repeated', opts={'string': 'std::array<$, 4>'}),
                          F('rb1', 'bytes', 5, 'repeated', opts={'bytes': 'std::array<$, 1>'}),
                          F('qb2', 'bytes', 6, 'required', opts={'bytes': 'std::array<$, 2>'}),
                          F('qs2', 'string', 7, 'required', opts={'string': 'std::array<$, 2>'})])
    fsub = Msg('LSub', [F('v', 'int32', 1, 'optional')])

    def lims(style):
        return [F('s', 'string', 1, 'optional', opts={'max_size': 4}, style=style),
                F('b', 'bytes', 2, 'optional', opts={'max_size': 4}, style=style),
                F('rs', 'string', 3, 'repeated', opts={'max_size': 4, 'max_count': 3}, style=style),
                F('rb', 'bytes', 4, 'repeated', opts={'max_size': 4, 'max_count': 3}, style=style),
                F('ri', 'int32', 5, 'repeated', opts={'max_count': 3}, style=style),
                F('pi', 'int32', 6, 'repeated', packed=True, opts={'max_count': 3}, style=style),
                F('pd', 'double', 7, 'repeated', packed=True, opts={'max_count': 3}, style=style),
                F('rm', fsub, 8, 'repeated', opts={'max_count': 3}, style=style),
                F('rbo', 'bool', 9, 'repeated', opts={'max_count': 3}, style=style),
                F('pbo', 'bool', 10, 'repeated', packed=True, opts={'max_count': 3}, style=style),
                F('qs', 'string', 11, 'required', opts={'max_size': 4}, style=style),
                F('qb', 'bytes', 12, 'required', opts={'max_size': 4}, style=style),
                F('re', e8, 13, 'repeated', opts={'max_count': 3}, style=style),
                F('rf', 'fixed32', 14, 'repeated', opts={'max_count': 3}, style=style)]

    lim_f = Msg('LimField', lims('inline') + [Oneof('o', [F('os', 'string', 20, opts={'max_size': 4}, style='inline'),
                                                        F('ob', 'bytes', 21, opts={'max_size': 4}, style='inline')])])
    lim_c = Msg('LimComment', lims('comment') + [Oneof('o', [F('os', 'string', 20, opts={'max_size': 4}),
                                                           F('ob', 'bytes', 21, opts={'max_size': 4})])])

    def plain_lims():
        return [F('s', 'string', 1, 'optional'), F('b', 'bytes', 2, 'optional'), F('rs', 'string', 3, 'repeated'),
                F('ri', 'int32', 4, 'repeated'), F('pi', 'int32', 5, 'repeated', packed=True),
                F('rm', fsub, 6, 'repeated'), F('qs', 'string', 7, 'required'),
                F('over', 'string', 8, 'optional', opts={'max_size': 6}),
                F('rover', 'int32', 9, 'repeated', opts={'max_count': 5}, style='inline'),
                F('rb', 'bytes', 10, 'repeated')]

    lim_m = Msg('LimMsg', plain_lims() + [Oneof('o', [F('os', 'string', 20)])], opts={'max_size': 4, 'max_count': 3})
    lim_mc = Msg('LimMsgComment', plain_lims(), opts={'max_size': 4, 'max_count': 3}, style='comment')
    lim_nano = Msg('LimNano', [F('s', 'string', 1, 'optional', opts={'max_size': 4}, style='nanopb'),
                               F('ri', 'int32', 2, 'repeated', opts={'max_count': 3}, style='nanopb')])
    nolim = Msg('NoLim', [F('s', 'string', 1, 'optional'), F('ri', 'int32', 2, 'repeated'),
                          F('sub', lim_f, 3, 'optional')])
    cont = Msg('Cont', [F('l', 'int32', 1, 'repeated', opts={'repeated': 'std::list<$>'}),
                        F('ls', 'string', 2, 'repeated', opts={'repeated': 'std::list<$>'}),
                        F('vs', 'string', 3, 'optional', opts={'string': 'std::vector<$>'}),
                        F('db', 'bytes', 4, 'optional', opts={'bytes': 'std::vector<$>'}),
                        F('lp', 'double', 5, 'repeated', packed=True, opts={'repeated': 'std::deque<$>'}),
                        Map('um', 'int32', 'string', 6, opts={'map': 'std::unordered_map<$, @>'}),
                        Map('us', 'string', 'int32', 7, opts={'map': 'std::unordered_map<$, @>'}, style='inline'),
                        F('lm', fsub, 8, 'repeated', opts={'repeated': 'std::list<$>'})])
    return File('fx_opts', 'Vt.Opts', 'proto2', enums=[e8, eu8, e16, eu16], imports=['spb.proto'],
                includes=['<array>', '<list>', '<deque>', '<unordered_map>'],
                msgs=[ints, rints, bits, arr, fixed, fsub, lim_f, lim_c, lim_m, lim_mc, lim_nano, nolim, cont])


def filelim():
    sub = Msg('FSub', [F('v', 'int32', 1, 'optional'), F('t', 'string', 2, 'optional')])
    m = Msg('LimFile', [F('s', 'string', 1, 'optional'), F('b', 'bytes', 2, 'optional'),
                        F('rs', 'string', 3, 'repeated'), F('ri', 'int32', 4, 'repeated'),
                        F('pi', 'int32', 5, 'repeated', packed=True), F('rm', sub, 6, 'repeated'),
                        F('over', 'string', 7, 'optional', opts={'max_size': 9}),
                        F('rover', 'int32', 8, 'repeated', opts={'max_count': 5}),
                        Oneof('o', [F('os', 'string', 9), F('oi', 'int32', 10)])])
    m2 = Msg('LimFileMsg', [F('s', 'string', 1, 'optional'), F('ri', 'int32', 2, 'repeated'),
                            F('over', 'string', 3, 'optional', opts={'max_size': 7}, style='inline')],
             opts={'max_size': 5, 'max_count': 4})
    return File('fx_filelim', 'Vt.FileLim', 'proto2', imports=['spb.proto'], msgs=[sub, m, m2],
                opts={'max_size': 4, 'max_count': 3, 'enum': 'int16'})


def names():
    """names which need care: JSON names, C++ keywords, prefixes, equal lengths, hash-like collisions"""
    e = Enum('Enum', [('int', 0), ('class', 1), ('A', 2), ('AB', 3), ('ABC', 4), ('BA', 5), ('neg', -1)])
    sub = Msg('operator', [F('default', 'int32', 1, 'optional')])
    names = ['a', 'b', 'ab', 'ba', 'abc', 'acb', 'a_b', 'aB', 'snake_case_name', 'camelCase', 'Upper', 'UPPER_CASE',
             'x1', 'x1_y2', 'x_y1', 'trail_', 'dou__ble', 'class', 'int', 'namespace', 'value', 'stream',
             'true', 'null_', 'very_long_field_name_which_has_more_than_sixty_four_characters_in_total_x',
             'very_long_field_name_which_has_more_than_sixty_four_characters_in_total_y']
    m = Msg('Names', [F(n, 'int32', i + 1, 'optional') for i, n in enumerate(names) if n != 'aB'])
    j = Msg('JsonName', [F('plain', 'int32', 1, 'optional', json='renamed'),
                         F('two_words', 'string', 2, 'optional', json='TWO'),
                         F('sym', 'int32', 3, 'optional', json='with space-and.dot'),
                         F('swap_a', 'int32', 4, 'optional', json='swapB'),
                         F('rep_f', 'int32', 5, 'repeated', json='@rep'),
                         Map('map_f', 'string', 'int32', 6),
                         Oneof('one_of', [F('first_one', 'int32', 7), F('second_one', 'string', 8, json='2nd')]),
                         F('en_f', e, 9, 'optional'), F('sub_f', sub, 10, 'optional')])
    return File('fx_names', 'Vt.Names', 'proto2', enums=[e], msgs=[sub, m, j])


def static():
    """only containers which never allocate"""
    sub = Msg('SSub', [F('v', 'int32', 1, 'optional'), F('t', 'string', 2, 'optional')])
    m = Msg('SMsg', [F('i', 'int32', 1, 'optional'), F('s', 'string', 2, 'optional'), F('b', 'bytes', 3, 'optional'),
                     F('ri', 'int32', 4, 'repeated'), F('pi', 'uint64', 5, 'repeated', packed=True),
                     F('rs', 'string', 6, 'repeated'), F('rb', 'bytes', 7, 'repeated'), F('sub', sub, 8, 'optional'),
                     F('subs', sub, 9, 'repeated'), F('d', 'double', 10, 'optional'),
                     Oneof('o', [F('os', 'string', 11), F('oi', 'int32', 12), F('om', sub, 13)]),
                     Map('m', 'int32', 'int32', 14), Map('ms', 'string', sub, 15),
                     F('fa', 'int32', 16, 'repeated', packed=True, opts={'repeated': 'std::array<$, 3>'}),
                     F('fb', 'bytes', 17, 'optional', opts={'bytes': 'std::array<$, 4>'}),
                     F('fl', 'float', 18, 'optional'), F('bo', 'bool', 19, 'optional')])
    return File('fx_static', 'Vt.Static', 'proto2', imports=['spb.proto'], msgs=[sub, m],
                includes=['vt_static.hpp', '<array>'],
                opts={'repeated': 'vts::vec<$, 600>', 'string': 'vts::str<600>', 'bytes': 'vts::bytes<600>',
                      'map': 'vts::map<$, @, 40>'})


def tiny():
    """every kind of field in containers of a small fixed capacity"""
    kinds = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64',
             'float', 'double', 'bool']
    e = Enum('TEnum', [('T_ZERO', 0), ('T_ONE', 1), ('T_NEG', -5), ('T_BIG', 70000)])
    leaf = Msg('TLeaf', [F('v', 'int32', 1, 'optional'), F('t', 'string', 2, 'optional'), F('b', 'bytes', 3, 'optional')])
    mid = Msg('TMid', [F('leaf', leaf, 1, 'optional'), F('leaves', leaf, 2, 'repeated'), Map('ml', 'string', leaf, 3)])
    fs, n = [], 1
    for k in kinds + ['string', 'bytes', e]:
        nm = k if isinstance(k, str) else 'en'
        fs.append(F('o_' + nm, k, n, 'optional'))
        fs.append(F('r_' + nm, k, n + 1, 'repeated'))
        n += 2
        if k not in ('string', 'bytes'):
            fs.append(F('p_' + nm, k, n, 'repeated', packed=True))
            n += 1
    one = []
    for k in ('string', 'bytes', 'sint64', e, mid, 'double'):
        one.append(F('u%d' % n, k, n))
        n += 1
    fs.append(Oneof('one', one))
    for k, v in (('string', 'string'), ('int32', 'bytes'), ('bool', 'double'), ('sint64', e), ('fixed32', leaf), ('uint64', 'bool')):
        fs.append(Map('m%d' % n, k, v, n))
        n += 1
    fs += [F('mid', mid, n, 'optional'), F('mids', mid, n + 1, 'repeated'), F('lim', 'string', n + 2, 'optional', opts={'max_size': 9}),
           F('fa', 'sint32', n + 3, 'repeated', packed=True, opts={'repeated': 'std::array<$, 3>'}),
           F('fb', 'bytes', n + 4, 'optional', opts={'bytes': 'std::array<$, 4>'}),
           F('fs', 'string', n + 5, 'optional', opts={'string': 'std::array<$, 5>'})]
    return File('fx_tiny', 'Vt.Tiny', 'proto2', imports=['spb.proto'], enums=[e], msgs=[leaf, mid, Msg('TAll', fs)],
                includes=['vt_static.hpp', '<array>'],
                opts={'repeated': 'vts::vec<$, 6>', 'string': 'vts::str<300>', 'bytes': 'vts::bytes<300>',
                      'map': 'vts::map<$, @, 4>'})


def limits(file_style):
    """max_size / max_count at every combination of levels and spellings: a field overrides its message, which
    overrides the file"""
    fo = {'max_size': 3, 'max_count': 2} if file_style != 'none' else {}
    sub = Msg('Sub', [F('v', 'int32', 1, 'optional')])
    msgs = [sub]
    for ms in ('none', 'option', 'comment', 'nanopb'):
        for what in ('both', 'size', 'count'):
            if ms == 'none' and what != 'both':
                continue
            mo = {} if ms == 'none' else {k: v for k, v in (('max_size', 5), ('max_count', 4)) if what in ('both', k[4:])}
            m = Msg('M_%s_%s' % (ms, what), opts=mo, style=ms)
            n = 1
            one = []
            for fs in ('none', 'inline', 'comment', 'nanopb'):
                if what != 'both' and fs in ('comment', 'nanopb'):
                    continue

                def o(**kw):
                    return {} if fs == 'none' else kw

                st = 'comment' if fs == 'none' else fs
                for nm, t, lab, op, kw in (
                        ('s', 'string', 'optional', o(max_size=7), {}), ('b', 'bytes', 'optional', o(max_size=7), {}),
                        ('rs', 'string', 'repeated', o(max_size=7, max_count=6), {}),
                        ('rc', 'string', 'repeated', o(max_count=6), {}), ('rz', 'bytes', 'repeated', o(max_size=7), {}),
                        ('ri', 'int32', 'repeated', o(max_count=6), {}),
                        ('pi', 'sint64', 'repeated', o(max_count=6), {'packed': True}),
                        ('rm', sub, 'repeated', o(max_count=6), {})):
                    m.items.append(F('%s_%s' % (nm, fs), t, n, lab, opts=op, style=st, **kw))
                    n += 1
                one.append(F('o_%s' % fs, 'string', n, opts=o(max_size=7), style=st))
                n += 1
            m.items.append(Oneof('one', one))
            msgs.append(m)
    return File('fx_lim_' + file_style, 'Vt.Lim_' + file_style, 'proto2', imports=['spb.proto'], msgs=msgs, opts=fo,
                style=file_style)


def disp():
    """JSON member names and enum names which collide in the 32 bit hash of the generated code: "ab"/"bA" and their
    products, names of different lengths, camelCase and json_name against plain names, very long names"""
    two = ['ab', 'bA', 'abab', 'abbA', 'bAab', 'a', 'b', 'abc', 'bAc', 'xab', 'xbA', 'ab_z', 'bA_z', 'ab1']
    wrap = ['qnqdfshe', 'lkgufhgjh', 'brbqkcvpm', 'ftdelhjzyt', 'yhjlhsio', 'hrhsyyssti']
    lng = 'long_' + 'n' * 250 + '_ab'
    ln = [lng, lng[:-2] + 'bA', lng[:-3], 'z' * 300]
    e = Enum('Dn', [(n, i) for i, n in enumerate(two + wrap + ln + ['x_y'])] + [('neg_ab', -5), ('neg_bA', -6)])
    ea = Enum('Da', [('ab', 0), ('bA', 0), ('abab', 1), ('bAbA', 1), ('abbA', 1)], alias=True)
    sub = Msg('Sub', [F('ab', 'int32', 1, 'optional'), F('bA', 'string', 2, 'optional')])
    # lengths of the accepted names differ a lot: bounds of the key buffer
    one_name = Msg('OneName', [F('abcd', 'int32', 1, 'optional')])
    same_len = Msg('SameLen', [F('abab', 'int32', 1, 'optional'), F('bAbA', 'int32', 2, 'optional')])
    short = Msg('Short', [F('a', 'int32', 1, 'optional'), F('foo_ab', 'int32', 2, 'optional', json='q')])
    plain = Msg('Plain', [F(n, 'int32', i + 1, 'optional') for i, n in enumerate(two + wrap + ln)] + [
        F('foo_bar', 'int32', 40, 'optional'), F('fooBbQ', 'int32', 41, 'optional'),
        F('jn', 'int32', 42, 'optional', json='bAbA'), F('jm', 'int32', 43, 'optional', json='jab'),
        F('jbA', 'int32', 44, 'optional'), F('rep_ab', 'int32', 45, 'repeated'), F('rep_bA', 'int32', 46, 'repeated'),
        F('s_ab', sub, 47, 'optional'), F('s_bA', sub, 48, 'optional'), Map('m_ab', 'string', 'int32', 49),
        Map('m_bA', 'string', e, 50), F('snakeBA', 'int32', 51, 'optional'), F('snake_c', 'int32', 52, 'optional')])
    one = Msg('OneM', [F('abbA', 'int32', 1, 'optional'),
                       Oneof('ab', [F('abab', 'int32', 2), F('bAab', 'int32', 3), F('o_ab', 'int32', 4), F('o_bA', sub, 5),
                                    F('bAbA', 'string', 6)]),
                       Oneof('bA', [F('xab', 'int32', 7), F('xbA', 'int32', 8, json='ybA'), F('yab', 'int32', 9)]),
                       F('after_ab', 'int32', 10, 'optional')])
    req = Msg('ReqM', [F('ab', 'int32', 1, 'required'), F('bA', 'int32', 2, 'required'), F('c', 'int32', 3, 'optional')])
    en = Msg('EnM', [F('e', e, 1, 'optional'), F('a', ea, 2, 'optional'), F('re', e, 3, 'repeated'),
                     Map('me', 'string', ea, 4), Oneof('o', [F('oe', e, 5), F('oa', ea, 6)])], enums=[ea])
    # the shortest or the longest name of a message is the second name of a member of any kind
    bnd = []
    for how, name, json in (('longer', 'abbA', 'abababab'), ('shorter', 'abbA', 'a'), ('snake', 'xx_yyy_z', None), ('name', 'abbAabbA', 'bAab'), ('short', 'b', 'bAab')):
        for kind, t in (('opt', 'int32'), ('req', 'string'), ('rep', 'int32'), ('msg', sub), ('enum', e), ('rmsg', sub), ('map', 'int32'), ('smap', sub), ('one', 'int32'), ('onemsg', sub), ('oneenum', e)):
            if 'map' in kind:
                x = Map(name, 'string', t, 2, json=json)
            elif kind.startswith('one'):
                x = Oneof('xone', [F(name, t, 2, json=json), F('abAb', 'int32', 3)])
            else:
                x = F(name, t, 2, {'req': 'required', 'rep': 'repeated', 'rmsg': 'repeated'}.get(kind, 'optional'), json=json)
            mate = F('abab', 'int32', 1, 'optional')
            bnd.append(Msg('Bnd_%s_%s' % (how, kind), [mate, x] if kind != 'rep' else [x, mate]))
    return File('fx_disp', 'Vt.Disp', 'proto2', enums=[e], msgs=[sub, one_name, same_len, short, plain, one, req, en] + bnd)


def nums():
    """one message per number type, with a member of this type in every place; narrowed types"""
    msgs = []
    for t in NUMERIC:
        if t == 'bool':
            continue
        items = [F('o', t, 1, 'optional'), F('r', t, 2, 'repeated'), Map('v', 'string', t, 3), Oneof('x', [F('xa', t, 4), F('xs', 'string', 5)])]
        if t not in ('double', 'float'):
            items.append(Map('k', t, 'int32', 6))
        msgs.append(Msg('N' + t, items))
    nar = []
    for i, (t, w) in enumerate((('int32', 'int8'), ('uint32', 'uint8'), ('sint64', 'int16'), ('uint64', 'uint16'), ('int64', 'int32'), ('fixed64', 'uint32'), ('int32', 'int8:3'), ('uint32', 'uint16:9'), ('int64', 'int64:40'), ('uint64', 'uint64:33'))):
        nar.append(F('n%d' % i, t, i + 1, 'required' if ':' in w else 'optional', opts={'type': w}))
    msgs.append(Msg('Nar', nar))
    return File('fx_nums', 'Vt.Nums', 'proto2', msgs=msgs)


ALL = {'nums': nums, 'lim_none': lambda: limits('none'), 'lim_option': lambda: limits('option'),
       'lim_comment': lambda: limits('comment'), 'lim_nanopb': lambda: limits('nanopb'),
       'scalar2': scalar2, 'proto3': proto3, 'comp': comp, 'opts': opts, 'filelim': filelim, 'names': names,
       'static': static, 'tiny': tiny, 'disp': disp}

"""P12: the fields of wire headers are taken from the bits their standards give them."""
import flow
from flow import ZERO, I, TT, eqatom, sub, show, rng
from program import AnalysisError, walk
from rules import common as C

BC = 'sps::BitContext::'
FIX = {'read_int8': 8, 'read_int16': 16, 'read_int24': 24, 'read_int32': 32}
READS = set(FIX) | {'read_bits', 'read_bytes', 'skip_read_bytes', 'acquire', 'acquire_bits'}


# ------------------------------------------------------------------ what the standards say
# (name, width) a field; (None, width) bits nobody needs; ('?', condition, items); ('bytes', count) with count in bytes;
# ('each', count, items) as many times as count says, or for as long as count bytes are not used up; ('sub', name) what another decoder reads;
# ('stop', condition) the end
def F(s):
    """'a1 b2' -> fields"""
    out = []
    for w in s.split():
        n, b = w.rsplit(':', 1)
        out.append((None if n == '-' else n, int(b)))
    return out


def on(n):
    return ('bit', n)


TIME = lambda p, m: F('-:4 %s.%s1:3 -:1 %s.%s2:15 -:1 %s.%s3:15 -:1' % (p, m, p, m, p, m))
SPEC = {
    'sps::TsPacket::decode': ('ISO 13818-1 2.4.3.2', F(
        'sync_byte:8 transport_error_indicator:1 payload_unit_start_indicator:1 transport_priority:1 pid:13 '
        'transport_scrambling_control:2 adaptation_filed_control:2 continuity_counter:4') + [
        ('?', ('bit', 'adaptation_filed_control', 1), [('sub', 'sps::TsAdaptationFiled::decode')])]),
    'sps::TsAdaptationFiled::decode': ('ISO 13818-1 2.4.3.4', F('adaption_field_length:8') + [('stop', ('zero', 'adaption_field_length'))] + F(
        'flags.discontinuity_indicator:1 flags.random_access_indicator:1 flags.elementary_stream_priority_indicator:1 flags.PCR_flag:1 '
        'flags.OPCR_flag:1 flags.splicing_point_flag:1 flags.transport_private_data_flag:1 flags.adaptation_field_extension_flag:1') + [
        ('?', on('flags.PCR_flag'), F('pcr.program_clock_reference_base:33 pcr.pcr_reserved:6 pcr.program_clock_reference_extension:9')),
        ('?', on('flags.OPCR_flag'), [('bytes', 6)]),
        ('?', on('flags.splicing_point_flag'), F('splice_countdown:8')),
        ('?', on('flags.transport_private_data_flag'), F('transport_private_data_length:8') + [('bytes', 'transport_private_data_length')]),
        ('rest',)]),
    'sps::TsPsiProgram::decode': ('ISO 13818-1 2.4.4', [('?', ('member', 'payload_unit_start_indicator'), F('pointer_field:8'))] + F(
        'table_id:8 flags1.section_syntax_indicator:1 flags1.const_value0:1 flags1.reserved:2 flags1.section_length:12 '
        'flags1.transport_stream_id:16 flags2.reserved:2 flags2.version_number:5 flags2.current_next_indicator:1 section_number:8 '
        'last_section_number:8') + [('sub', 'psi_decode')] + F('crc_32:32')),
    'sps::TsPatProgram::psi_decode': ('ISO 13818-1 2.4.4.3', [
        ('each', ('member', 'flags1.section_length', -9), F('program_number:16 reserved:3 program_map_pid:13'))]),
    'sps::TsPmtProgram::psi_decode': ('ISO 13818-1 2.4.4.8', F('-:3 pmt_flag.pcr_pid:13 -:4 pmt_flag.program_info_length_unused:2 '
        'pmt_flag.program_info_length:10') + [('bytes', 'pmt_flag.program_info_length'),
        ('each', ('left', 'flags1.section_length', -13, 'pmt_flag.program_info_length'),
         F('header.stream_type:8 -:3 header.elementary_pid:13 -:4 header.es_info_length:12') + [('bytes', 'header.es_info_length')])]),
    'sps::TsPesProgram::decode': ('ISO 13818-1 2.4.3.6', [('stop', ('not', ('member', 'payload_unit_start_indicator')))] + F(
        'pes_packet_header.packet_start_code_prefix:24 pes_packet_header.stream_id:8 pes_packet_header.pes_packet_length:16') + [
        ('stop', ('in', 'pes_packet_header.stream_id', (0xbc, 0xbf, 0xf0, 0xf1, 0xff, 0xf2, 0xf8, 0xbe)))] + F(
        '-:2 pes_header.pes_scrambling_control:2 pes_header.pes_priority:1 pes_header.data_alignment_indicator:1 pes_header.copyright:1 '
        'pes_header.original_or_copy:1 pes_header.pts_dts_flags:2 pes_header.escr_flag:1 pes_header.es_rate_flag:1 '
        'pes_header.dsm_trick_mode_flag:1 pes_header.additional_copy_info_flag:1 pes_header.pes_crc_flag:1 '
        'pes_header.pes_extension_flag:1 pes_header.pes_header_data_length:8') + [
        ('?', ('bit', 'pes_header.pts_dts_flags', 1), TIME('pts', 'pts') + [('time', 'pes_ctx.pts', 'pts.pts'), ]),
        ('?', ('is', 'pes_header.pts_dts_flags', 3), TIME('dts', 'dts') + [('time', 'pes_ctx.dts', 'dts.dts')]),
        ('?', on('pes_header.escr_flag'), F('-:2 e1:3 -:1 e2:15 -:1 e3:15 -:1 escr.escr_extension:9 -:1') + [
            ('same', 'escr.escr_base1', 'e1'), ('same', 'escr.escr_base2', 'e2'), ('same', 'escr.escr_base3', 'e3')]),
        ('?', on('pes_header.es_rate_flag'), F('-:1 es_rate.es_rate:22 -:1')),
        ('?', on('pes_header.dsm_trick_mode_flag'), F('-:8')),
        ('?', on('pes_header.additional_copy_info_flag'), F('-:8')),
        ('?', on('pes_header.pes_crc_flag'), F('pes_crc.previous_pes_packet_crc:16')),
        ('?', on('pes_header.pes_extension_flag'), F(
            'flags.pes_private_data_flag:1 flags.pack_header_field_flag:1 flags.program_packet_sequence_counter_flag:1 '
            'flags.p_std_buffer_flag:1 flags.reserved:3 flags.pes_extension_flag_2:1') + [
            ('?', on('flags.pes_private_data_flag'), F('-:128')),
            ('?', on('flags.pack_header_field_flag'), F('pack_header_field.pack_field_length:8') + [('bytes', 'pack_header_field.pack_field_length')]),
            ('?', on('flags.program_packet_sequence_counter_flag'), F('-:16')),
            ('?', on('flags.p_std_buffer_flag'), F('-:16')),
            ('?', on('flags.pes_extension_flag_2'), F('-:1 header.pes_extension_field_length:7') + [('bytes', 'header.pes_extension_field_length')])]),
        ('rest',)]),
    'sps::AdtsFixedHeader::decode': ('ISO 13818-7 6.2', F(
        'syncword:12 id:1 layer:2 protection_absent:1 profile:2 sampling_frequency_index:4 private_bit:1 channel_configuration:3 '
        'original:1 home:1 copyright_identification_bit:1 copyright_identification_start:1 aac_frame_length:13 adts_buffer_fullness:11 '
        'no_raw_data_blocks_in_frame:2') + [('?', ('not', on('protection_absent')), F('crc16:16'))]),
    'sps::RtpPayloadHeader::decode': ('RFC 3550 5.1, 5.3.1', F(
        'fix_header.version:2 fix_header.padding:1 fix_header.extension:1 fix_header.cc:4 fix_header.mark:1 fix_header.payload_type:7 '
        'fix_header.sequence_num:16 fix_header.timestamp:32 fix_header.ssrc:32') + [
        ('each', ('count', 'fix_header.cc'), F('-:32')),
        ('?', on('fix_header.extension'), F('extension_info.define_by_profile:16 extension_info.length:16') + [
            ('bytes', 'extension_info.length', 4)])]),
    'sps::RtpAacAuHeader::decode': ('RFC 3640 3.2.1', F('au_headers_length:16') + [('each', None, F('au_size:13 au_index:3'))]),
    'sps::FuDecoder::decode': ('RFC 6184 5.8', F('indicator.f:1 indicator.nri:2 indicator.tp:5 header.s:1 header.e:1 header.r:1 header.tp:5')),
    'sps::StapRtpDecoder::decode': ('RFC 6184 5.7.1', [('skip',), ('each', None, F('n:16') + [('bytes', 'n')])]),
    'sps::MtapRtpDecoder::decode': ('RFC 6184 5.7.2', [('bytes', 3), ('each', None, F('n:16 -:8') + [('anyof', 16, 24), ('bytes', 'n')])]),
    'sps::H264NAL::parse_nal': ('ISO 14496-10 7.3.1', F('nal_header.forbidden_bit:1 nal_header.nal_reference_bit:2 nal_header.nal_unit_type:5')),
    'sps::NALUParser::decode_header': ('ISO 14496-15 5.2.4.1', [('may',)] + F('-:8 -:24 -:6 nalu_length_size_minus_one:2 -:3 sps:5') + [
        ('each', ('count', 'sps'), F('n:16') + [('bytes', 'n')])] + F('pps:8') + [('each', ('count', 'pps'), F('n:16') + [('bytes', 'n')])]),
    'sps::RtcpHeadDecoder::decode': ('RFC 3550 6.4', F('header.version:2 header.padding:1 header.cflag:5 header.payload_type:8 header.length:16')),
    'sps::RtcpSRReportBlock::decode': ('RFC 3550 6.4.1', F(
        'ssrc:32 fraction_lost:8 cum_number_pkt_lost:24 extend_high_seq_num_recv:32 inter_arrival_jitter:32 last_sr:32 delay_since_last_sr:32')),
    'sps::RtcpSRDecoder::decode': ('RFC 3550 6.4.1', F(
        'ssrc:32 ntp_ts_msw:32 ntp_ts_lsw:32 rtp_ts:32 send_pkt_count:32 send_oct_count:32') + [
        ('each', ('count', 'cflag'), [('sub', 'sps::RtcpSRReportBlock::decode')])]),
    'sps::RtcpRRDecoder::decode': ('RFC 3550 6.4.2', F('ssrc:32') + [
        ('each', ('count', 'cflag'), [('sub', 'sps::RtcpSRReportBlock::decode')])]),
    'sps::RtcpSDES::decode': ('RFC 3550 6.5', F('ssrc:32 item_type:8 item_length:8') + [('bytes', 'item_length')]),
    'sps::RtcpByteDecoder::decode': ('RFC 3550 6.6', [('words', 'length')]),
    'sps::RtcpAppDecoder::decode': ('RFC 3550 6.7', [('words', 'length')]),
}


# members that only TsPacket::decode sets, to one bit (its own layout)
ONEBIT = {'sps::TsPacket::payload_unit_start_indicator'}


class Bad(Exception):
    pass


# ------------------------------------------------------------------ the paths
class L(flow.Exec):
    """there is enough input (what happens when there is not is P02's and P05's business)"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.init = {}
        self.dropped = 0

    def unknown(self, e, f, fr, s, ov, args):
        if f in (BC + 'acquire', BC + 'acquire_bits'):
            return [(s, ZERO)]
        return super().unknown(e, f, fr, s, ov, args)

    def cap(self, sts, where=''):
        if len(sts) > 400:
            # optional parts are independent of each other: at most a few of them at once
            c = [(self.taken(s), s) for s in sts]
            for most in (9, 4, 3, 2):
                sts = [s for n, s in c if n is not None and n <= most]
                if len(sts) <= 2000:
                    break
            self.dropped += len(c) - len(sts)
        return super().cap(sts, where)

    def taken(self, s):
        n = 0
        for t, cs in s.ne.items():
            if t[0] == 'ld' and t[1][0] == 'F' and self.W.at(t[1]) == 1 and len(cs) > 1:
                return None          # a bit that is neither 0 nor 1
            if ZERO in cs and any(q[0] == 'r' and q[1].startswith(BC) for q in flow.subterms(t) if q and isinstance(q[0], str) and len(q) > 1 and isinstance(q[1], str)):
                n += 1
        return n

    def havoc(self, s, mods, fr, n):
        out = super().havoc(s, mods, fr, n)
        for k, v in out.store.items():
            if k[0] == 'L' and isinstance(v, tuple) and v and v[0] == 'hv':
                self.init.setdefault(v, []).append((k, s.store.get(k)))
        return out


def helper(prog, top):
    names = set(SPEC)

    def ok(g, fr):
        if g['f'] in names or g['f'].startswith(BC) or g.get('virt') or not g['file'].startswith('src/av'):
            return False
        if any('BitContext' in p['t'] for p in g['params']):
            return g['f'].rsplit('::', 1)[-1] not in ('psi_decode', 'dump')
        return g['file'] == top['file'] and not any(n.get('k') in ('while', 'for', 'do', 'rfor') for n in walk(g['body'])) \
            and sum(1 for _ in walk(g['body'])) < 60
    return ok


def member(loc):
    """parent.name of a field"""
    n = loc[2].split('::')[-1]
    p = loc[1]
    while p and p[0] not in ('F', 'L', 'D', 'T', 'X'):
        p = p[1] if len(p) > 1 and isinstance(p[1], tuple) else None
    if p and p[0] == 'D':
        q = p[1]
        while isinstance(q, tuple) and q and q[0] in ('call', 'ld') and q[0] == 'call':
            q = next((y for y in q[1:] if isinstance(y, tuple)), None)
        if isinstance(q, tuple) and q and q[0] == 'ld' and q[1][0] == 'F':
            p = q[1]
    return (p[2].split('::')[-1] + '.' if p and p[0] == 'F' else '') + n


class Widths:
    """declared width of members, bit-fields counted"""
    def __init__(self, prog):
        self.by, self.ty = {}, {}
        for rn, r in prog.records.items():
            for f in r['fields']:
                w = f.get('bits') or (int(f['t'][1:]) if f['t'] in flow.INT and f['t'] != 'b' else None)
                self.by.setdefault(f['q'], {})[rn] = w
                self.ty.setdefault(f['q'], []).append((rn, f['t']))

    def at(self, loc):
        d = self.by.get(loc[2], {})
        if len(d) > 1 and loc[1][0] == 'F':
            for rn, t in self.ty.get(loc[1][2], []):
                if t[2:] in d:
                    return d[t[2:]]
        if loc[2] in ONEBIT:
            return 1
        ws = set(d.values())
        return ws.pop() if len(ws) == 1 else None


def bits(t, W, read, n=64):
    """the bits of a value, lowest first: 0, 1, a tag, or None where it cannot be told"""
    if t[0] == 'i':
        return [(t[1] >> i) & 1 for i in range(n)]
    if t in read:
        w = read[t]
        return [('b', t, i) for i in range(w)] + [0] * (n - w)
    if t[0] == 'tr':
        w = 1 if t[1] == 'b' else int(t[1][1:])
        b = bits(t[2], W, read, n)
        if t[1][0] == 'i' and any(x != 0 for x in b[w - 1:w]):
            return b[:w - 1] + [None] * (n - w + 1)
        return b[:w] + [0] * (n - w)
    if t[0] == 'bf':
        b = bits(t[2], W, read, n)
        return b[:t[1]] + [0] * (n - t[1])
    if t[0] == 'ld' and t[1][0] == 'F':
        w = W.at(t[1])
        if w and w < n:
            return [('m', member(t[1]), i, t) for i in range(w)] + [0] * (n - w)
        return [None] * n
    if t[0] == 'op':
        op = t[1]
        ty = TT.get(t)
        lim = int(ty[1:]) if ty in flow.INT and ty != 'b' else n
        if op in ('<<', '>>'):
            b, c = bits(t[2], W, read, n), t[3]
            if c[0] != 'i' or not 0 <= c[1] < n:
                return [None] * n
            b = ([0] * c[1] + b)[:n] if op == '<<' else b[c[1]:] + [0] * c[1]
        elif op in ('|', '&', '^'):
            x, y = bits(t[2], W, read, n), bits(t[3], W, read, n)
            b = [_bit(op, p, q) for p, q in zip(x, y)]
        else:
            return [None] * n
        if lim < n:
            top = [p for p in b[lim - (ty[0] == 'i'):] if p != 0]
            if top and ty[0] == 'i':
                b = b[:lim - 1] + [None] * (n - lim + 1)     # the sign would be set
            else:
                b = b[:lim] + [0] * (n - lim)
        return b
    if t[0] == 'lin':
        b = [(t[1] >> i) & 1 for i in range(n)] if t[1] >= 0 else [None] * n
        for k, c in t[2]:
            if c <= 0 or c & (c - 1):
                return [None] * n
            sh = c.bit_length() - 1
            y = ([0] * sh + bits(k, W, read, n))[:n]
            if any(p != 0 and q != 0 for p, q in zip(b, y)):
                return [None] * n
            b = [_bit('|', p, q) for p, q in zip(b, y)]
        return b
    w = TT.get(t)
    if w == 'b' and t[0] == 'atomv':
        return [None] * n
    return [None] * n


def _bit(op, p, q):
    if op == '&':
        if p == 0 or q == 0:
            return 0
        return q if p == 1 else p if q == 1 else p if p == q else None
    if op == '|':
        if p == 1 or q == 1:
            return 1
        return q if p == 0 else p if q == 0 else p if p == q else None
    return q if p == 0 else p if q == 0 else None


class Path:
    """what one path reads, and what it knows about the bits it has read"""
    def __init__(self, x, s, W, f):
        self.x, self.s, self.W = x, s, W
        self.readers = [('p', q['n']) for q in f['params'] if 'BitContext' in q['t']]
        self.read = {}
        self.ops = []            # ('bits', tags, line) | ('bytes', term, line) | ('sub', name) | ('loop', lid) | ('end', lid)
        self.stored = {}
        self.names = {}
        self.own = None
        for e in s.ev:
            if e[0] == 'call' and e[1].startswith(BC) and e[1][len(BC):] in READS and self.reader(e[3]):
                m = e[1][len(BC):]
                if m in FIX or m == 'read_bits':
                    w = FIX.get(m)
                    if w is None:
                        a = e[4][0]
                        c = s.const_of(a)
                        if c is None or c[0] != 'i':
                            raise Bad((e[6], 'bits are read in a number that no constant gives'))
                        w = c[1]
                    if not 0 < w <= 32:
                        raise Bad((e[6], '%d bits are read into 32' % w))
                    self.read[e[5]] = w
                    self.ops.append(('bits', tuple(('b', e[5], i) for i in range(w - 1, -1, -1)), e[6]))
                else:
                    a = e[4][-1]
                    c = s.const_of(a)
                    if c is not None and c[0] == 'i':
                        self.ops.append(('bits', tuple(('x', len(self.ops), i) for i in range(8 * c[1])), e[6], 'B'))
                    else:
                        self.ops.append(('bytes', a, e[6]))
            elif e[0] == 'call' and any(isinstance(a, tuple) and a and a[0] in ('ref', 'p', 'ad') and self.reader(a) for a in e[4]):
                self.ops.append(('sub', e[1], e[6]))
            elif e[0] == 'loop':
                self.ops.append(('loop', e[1], 0))
            elif e[0] in ('endloop', 'brkloop'):
                self.ops.append((e[0], e[1], 0))
            elif e[0] == 'st' and e[1][0] == 'F':
                self.stored[member(e[1])] = (e[1], e[2], e[3])
        for k, v in s.store.items():
            if k[0] == 'F' and member(k) not in self.stored:
                self.stored[member(k)] = (k, v, 0)
        # loops that read nothing are no part of the layout
        ops, i = [], 0
        for o in self.ops:
            if o[0] == 'endloop':
                j = max((j for j, q in enumerate(ops) if q[0] == 'loop' and q[1] == o[1]), default=None)
                if j is not None and not any(q[0] in ('bits', 'bytes', 'sub') for q in ops[j:]):
                    del ops[j:]
                    continue
            ops.append(o)
        self.ops = ops
        self.clauses = None

    def reader(self, a):
        """is it the reader that the function was given?"""
        while a[0] in ('ad', 'ref') and len(a) > 1:
            a = a[1]
        if self.own is None and not self.readers and a[0] == 'L':
            self.own = a             # no reader is handed in: the one the function makes
        if a == self.own:
            return True
        return a in self.readers or a[0] == 'X' and a[1] in self.readers

    def bits(self, t):
        return bits(t, self.W, self.read)

    # ---- facts about bits: (list of (tag, value), holds together or not)
    def facts(self):
        if self.clauses is not None:
            return self.clauses
        out = []

        def eq(t, c, val):
            b = self.bits(t)
            if any(q is None for q in b) and not self.opaque(b):
                return
            cs = [(c >> i) & 1 for i in range(64)]
            lits = [(q, k) for q, k in zip(b, cs) if isinstance(q, tuple)]
            if any(q in (0, 1) and q != k for q, k in zip(b, cs)):
                return
            out.append((lits, val))
        for t, c in self.s.eq.items():
            if c[0] == 'i':
                eq(t, c[1], True)
        for t, cs in self.s.ne.items():
            for c in cs:
                c = c[1] if isinstance(c, tuple) and c[0] == 'i' else c
                if isinstance(c, int):
                    eq(t, c, False)
        seen = set()
        for l in self.s.le:
            for t in ([k for k, _ in l[2]] if l[0] == 'lin' else [l]):
                if t in seen:
                    continue
                seen.add(t)
                lo, hi = self.s.bounds(t)
                if lo is not None and lo >= 1:
                    eq(t, 0, False)
                if hi is not None and hi <= 0:
                    eq(t, 0, True)
        self.clauses = out
        return out

    def opaque(self, b):
        return False

    def ask(self, tags, fn):
        """the values fn can take over what the path knows about these bits"""
        cl = [(l, v) for l, v in self.facts() if l and all(q in tags for q, _ in l)]
        # a clause that is not about these bits alone still rules out nothing: left aside
        if len(tags) > 12:
            known = {}
            for l, v in cl:
                if v:
                    known.update(dict(l))
            if all(t in known for t in tags):
                return {fn([known[t] for t in tags])}
            if fn([0] * len(tags)) != fn([1] * len(tags)):
                z = any(not v and all(k == 0 for _, k in l) and len(l) == len(tags) for l, v in cl)
                if z and fn([0] * len(tags)) is True:
                    return {False}
            return {True, False}
        res = set()
        for m in range(1 << len(tags)):
            val = {t: (m >> i) & 1 for i, t in enumerate(tags)}
            if all(all(val[q] == k for q, k in l) == v for l, v in cl):
                res.add(fn([val[t] for t in tags]))
        return res

    def cond(self, c):
        if c[0] == 'not':
            return {not v for v in self.cond(c[1])}
        if c[0] == 'member':
            ts = {q for l, _ in self.facts() for q, _ in l if q[0] == 'm' and q[1].split('.')[-1] == c[1]}
            if not ts:
                return {True, False}
            return self.ask(sorted(ts, key=lambda q: q[2])[:1] if len(ts) > 8 else sorted(ts, key=lambda q: q[2]), lambda v: any(v))
        tags = self.names[c[1]]        # highest bit first
        low = list(reversed(tags))
        if c[0] == 'bit':
            if len(c) == 3:
                return self.ask(low, lambda v: v[c[2]] == 1)
            return self.ask(low, any)
        num = lambda v: sum(b << i for i, b in enumerate(v))
        if c[0] == 'is':
            return self.ask(low, lambda v: num(v) == c[2])
        if c[0] == 'in':
            return self.ask(low, lambda v: num(v) in c[2])
        if c[0] == 'zero':
            return self.ask(low, lambda v: not any(v))
        raise AnalysisError(c[0])

    # ---- values
    def isname(self, t, n, mul=1):
        """is the term mul times the field n?"""
        sh = mul.bit_length() - 1
        want = [0] * sh + list(reversed(self.names[n]))
        want += [0] * (64 - len(want))
        return self.bits(t) == want


def line(op):
    return op[2] if op else None


def match(p, items, ops, i, done):
    """walks one path along the layout; the index behind what it has read; raises Bad"""
    buf = []

    def need(w, what):
        nonlocal i
        out = []
        while len(out) < w:
            if buf:
                out.append(buf.pop(0))
                continue
            o = ops[i] if i < len(ops) else None
            if o is None:
                raise End()
            if o[0] != 'bits':
                raise Bad((line(o), '%s expected, %s found' % (what, OPN.get(o[0], o[0]))))
            buf.extend(o[1])
            last[0] = o[2]
            i += 1
        return tuple(out)
    last = [0]

    def bind(n, tags):
        p.names[n] = tags

    def value(n, tags, where):
        """the member named n holds these bits and nothing else"""
        st = p.stored.get(n)
        if st is None or n in ('n', 'e1', 'e2', 'e3'):
            return
        loc, v, l = st
        w = p.W.at(loc)
        got = p.bits(v)
        want = list(reversed(tags)) + [0] * (64 - len(tags))
        if w is not None and w < len(tags):
            raise Bad((l or where, '%s holds %d bits, the field has %d' % (n, w, len(tags))))
        if got != want:
            raise Bad((l or where, '%s is not bits %s of what was read' % (n, 'the next %d' % len(tags))))

    def run(items):
        nonlocal i
        for k, it in enumerate(items):
            if it[0] == '?':
                if ask(it[1]):
                    run(it[2])
            elif it[0] == 'stop':
                if ask(it[1]):
                    raise Stop()
            elif it[0] in ('bytes', 'words'):
                byte(it)
            elif it[0] == 'sub':
                aligned()
                o = ops[i] if i < len(ops) else None
                if o is None:
                    raise End()
                if o[0] != 'sub' or not (o[1] == it[1] or o[1].endswith('::' + it[1])):
                    raise Bad((line(o), '%s expected, %s found' % (it[1], o[1] if o[0] == 'sub' else OPN.get(o[0], o[0]))))
                i += 1
            elif it[0] == 'each':
                each(it)
            elif it[0] == 'may':
                if not ops:
                    raise Stop()
            elif it[0] == 'rest':
                aligned()
                while i < len(ops) and ops[i][0] in ('bytes', 'sub'):
                    i += 1
            elif it[0] == 'skip':
                o = ops[i] if i < len(ops) else None
                if o is None:
                    raise End()
                if o[0] == 'bytes' or o[0] == 'bits' and len(o) > 3:
                    i += 1
                else:
                    raise Bad((line(o), 'the header of the packet is not passed over'))
            elif it[0] == 'anyof':
                o = ops[i] if i < len(ops) else None
                if o is None:
                    raise End()
                if o[0] != 'bits' or len(o[1]) not in it[1:]:
                    raise Bad((line(o), '%s bits expected' % ' or '.join(map(str, it[1:]))))
                i += 1
            elif it[0] == 'time':
                tags = sum((p.names[it[2] + d] for d in '123'), ())
                value(it[1], tags, last[0])
            elif it[0] == 'same':
                value(it[1], p.names[it[2]], last[0])
            else:
                t = need(it[1], it[0] or '%d bits' % it[1])
                if it[0]:
                    bind(it[0], t)
                    value(it[0], t, last[0])

    def ask(c):
        vs = p.cond(c)
        if not vs:
            raise Never()
        if len(vs) > 1:
            if i >= len(ops) and not buf:
                raise End()
            raise Bad((last[0], 'what follows depends on %s, which the path does not look at' % cshow(c)))
        return True in vs

    def aligned():
        if buf:
            raise Bad((last[0], '%d bits more are read than the layout has here' % len(buf)))

    def byte(it):
        nonlocal i
        if isinstance(it[1], int):
            need(8 * it[1], '%d bytes' % it[1])
            return
        aligned()
        o = ops[i] if i < len(ops) else None
        if it[0] == 'words':
            if o is None:
                raise End()
            if o[0] != 'bytes':
                raise Bad((line(o), '4 bytes for each word of %s expected' % it[1]))
            b = p.bits(o[1])
            ok = b[0] == 0 and b[1] == 0 and all(isinstance(q, tuple) and q[0] == 'm' and q[1].split('.')[-1] == it[1] and q[2] == j
                                                 for j, q in enumerate(b[2:10])) and all(q == 0 or q[2] == j for j, q in enumerate(b[2:]))
            if not ok:
                raise Bad((line(o), '4 bytes for each word of %s expected' % it[1]))
            i += 1
            return
        mul = it[2] if len(it) > 2 else 1
        if o is not None and o[0] == 'bytes' and p.isname(o[1], it[1], mul):
            i += 1
            return
        vs = p.cond(('zero', it[1]))
        if vs == {True}:
            return
        if o is None:
            raise End()
        raise Bad((line(o), '%s bytes expected' % it[1]))

    def each(it):
        nonlocal i
        aligned()
        o = ops[i] if i < len(ops) else None
        if o is None or o[0] != 'loop':
            return              # none of them on this path
        i += 1
        lid = o[1]
        p.mark = (lid, i)
        p.each = it
        p.complete = False
        run(it[2])
        aligned()
        p.complete = True
        o = ops[i] if i < len(ops) else None
        if o is None:
            raise End()
        if o[0] == 'brkloop':
            i += 1
            o = ops[i] if i < len(ops) else None
        if o is None or o[0] != 'endloop':
            raise Bad((line(o) or last[0], 'more is read for each element than the layout has'))
        i += 1
    try:
        run(items)
        aligned()
    except Stop:
        aligned()
        while i < len(ops) and ops[i][0] in ('bytes', 'sub'):
            i += 1
    if i < len(ops):
        raise Bad((line(ops[i]), '%s after the end of the layout' % OPN.get(ops[i][0], ops[i][0])))
    return i


class Never(Exception):
    """no input takes this path"""


class End(Exception):
    """the path ends here"""


class Stop(Exception):
    """so does the layout"""


OPN = {'bits': 'bits', 'bytes': 'a number of bytes that the path computes', 'sub': 'another decoder', 'loop': 'a loop', 'endloop': 'the end of a loop',
       'brkloop': 'the end of a loop'}


def cshow(c):
    return c[1] if isinstance(c[1], str) else cshow(c[1])


# ------------------------------------------------------------------ how often a loop reads
def rounds(p, it, x, ops, nd):
    """True / False: the loop over elements goes round as often as it should; None: it is counted in a way not understood"""
    if it[1] is None:
        return None
    s = p.s
    lid, i0 = p.mark
    used = ZERO
    for o in ops[i0:]:
        used = flow.add(used, I(len(o[1])) if o[0] == 'bits' else flow.scale(o[1], 8) if o[0] == 'bytes' else I(0))
    kind = it[1][0]
    c, d = flow.lin(used)
    if kind != 'count':
        if c % 8 or any(v % 8 for v in d.values()):
            return None
        step = flow.mklin(c // 8, {k: v // 8 for k, v in d.items()})
        extra = it[1][2]
    else:
        step, extra = I(1), 0

    def is_total(t):
        """the number that the loop is to use up"""
        c, d = flow.lin(t)
        if not extra - flow.lin(step)[0] < c <= extra:       # a remainder too small for an element may be left
            return False
        want = [(it[1][1], 1)] + ([(it[1][3], -1)] if len(it[1]) > 3 else [])
        if len(d) < len(want) and p.cond(('zero', want[-1][0])) == {True}:
            want.pop()
        if len(d) != len(want):
            return False
        for n, k in want:
            hit = False
            for q, v in d.items():
                if v != k:
                    continue
                if n in p.names and p.isname(q, n):
                    hit = True
                b = p.bits(q)
                if b and isinstance(b[0], tuple) and b[0][0] == 'm' and b[0][1].split('.')[-1] == n.split('.')[-1]:
                    hit = True
            if not hit:
                return False
        return True

    def same(a, b):
        c, d = flow.lin(sub(a, b))
        return c == 0 and all(s.entails_le0(t) for t in d)       # what is left out is 0 on this path

    def whole(t):
        """the number of elements, where the loop counts elements of a fixed size: True; None: some other quotient"""
        if kind == 'count':
            return False
        if t[0] == 'op' and t[1] in ('/', '>>') and t[3][0] == 'i' and step[0] == 'i':
            return is_total(t[2]) and (t[3] == step if t[1] == '/' else 1 << t[3][1] == step[1]) or None
        return False
    verdict = None
    for hv, its in x.init.items():
        for k, before in its:
            end = s.store.get(k)
            if end is None or before is None or end == hv or not flow.contains(end, hv) and end != hv:
                continue
            # is it what the loop condition looks at?
            looked = [l for l in s.le if flow.contains(l, hv)]
            if not looked and not any(flow.contains(q, hv) for q in s.ne):
                continue
            delta = sub(end, hv)
            # counted in the condition: the end of the turn is behind the condition of the next one
            twice = delta in (I(2), I(-2)) and step == I(1) and any(n.get('k') == 'un' and n.get('op') in ('++', '--') for n in walk(nd.get('c') or {}))
            if twice:
                delta = I(delta[1] // 2)
            if before[0] == 'i':
                tot = []
                for l in looked:
                    cc, dd = flow.lin(l)
                    if dd.get(hv) == 1:        # hv + rest <= 0 : hv < -rest
                        rest = flow.add(sub(ZERO, sub(l, hv)), I(1))
                        tot.append(sub(rest, before))
                if not tot:
                    continue
                if twice:
                    tot = [t for t in tot if all(flow.lin(sub(t, o))[0] >= 0 for o in tot)]
                if delta == I(1) and any(whole(t) is None for t in tot):
                    continue
                good = same(delta, step) and any(is_total(t) for t in tot) or delta == I(1) and any(whole(t) for t in tot)
            else:
                if not any(flow.lin(l)[1].get(hv) == -1 for l in looked):
                    continue
                if delta == I(-1) and whole(before) is None:
                    continue
                tight = any(sub(I(k), hv) in s.le for k in range(1, max(flow.lin(step)[0], 1) + 1))
                if twice and sub(ZERO, hv) in s.le:
                    tight = False
                good = (same(sub(ZERO, delta), step) and is_total(before) or delta == I(-1) and whole(before)) and tight
            verdict = bool(good) or bool(verdict)
    return verdict


def check_fn(ctx, prog, W, f, items, std):
    x = L(prog, max_depth=3, inline=helper(prog, f))
    x.W = W
    r = x.run(f)
    ctx.see(x)
    name = f['f'].replace('sps::', '')
    fails = {}
    n = 0

    def one(s, v, it):
        nonlocal n
        try:
            p = Path(x, s, W, f)
        except Bad as b:
            fails.setdefault(b.args[0], s)
            return
        ops = list(p.ops)
        while it and ops and ops[-1][0] == 'loop':
            ops.pop()
        c = s.const_of(v) if v is not None else None
        failed = v is not None and (c is not None and c != ZERO or s.truth(eqatom(v, ZERO)) is False)
        while failed and not it and ops and ops[-1][0] in ('brkloop', 'endloop'):
            ops.pop()           # a failure inside a loop
        p.complete = None
        try:
            match(p, items, ops, 0, None)
            n += 1
        except Never:
            return
        except End:
            n += 1
            if it:
                if p.complete is False:
                    fails.setdefault((ops[-1][2] if ops else f['l'], 'less is read for an element than the layout has'), s)
                elif p.complete and p.mark[0] == it[0]:
                    ok = rounds(p, p.each, x, ops, it[2])
                    if ok is False:
                        fails.setdefault((it[0][1], 'the loop does not go round once for each element'), s)
                    elif ok:
                        p.ok = True
                        good.add(it[0])
            elif not failed:
                fails.setdefault((next((o[2] for o in reversed(ops) if o[2]), f['l']), 'less is read than the layout has, and this is no failure'), s)
        except Bad as b:
            fails.setdefault(b.args[0], s)
    good = set()
    for s, v in r:
        one(s, v, None)
    for nd, fn, s, more in x.iter_ends:
        one(s, None, ((fn['f'], nd['l']), more, nd))
    return fails, n, good, x


def p12(ctx):
    prog = ctx.prog
    ctx.rule('layout', 'on every path that has enough input, the fields are read in the order, with the widths and under the conditions of the standard, '
             'and each member holds exactly the bits of its field')
    ctx.rule('repeat', 'a loop over elements goes round as often as the count or the length that was read says')
    ctx.assume('BitContext hands out the bits in order, highest first (P01 decides what its reads consume)')
    W = Widths(prog)
    for q in sorted(SPEC):
        std, items = SPEC[q]
        fs = [f for f in prog.fns(q) if f.get('body')]
        if not fs:
            raise AnalysisError('%s is gone' % q)
        for f in fs:
            fails, n, good, x = check_fn(ctx, prog, W, f, items, std)
            name = f['f'].replace('sps::', '')
            for (l, what), s in sorted(fails.items(), key=lambda z: (z[0][0] or 0, z[0][1])):
                ctx.fail('layout', '%s:%s' % (name, what), f['file'], l or f['l'], f['f'], '%s (%s)' % (what, std),
                         key='%s|%s' % (f['f'], what), witness=C.witness(s))
            ctx.paths += n
            if not fails:
                if not n:
                    raise AnalysisError('no path through %s' % q)
                ctx.ok('layout', '%s: %d paths, %s' % (name, n, std))
                for lid in good:
                    ctx.ok('repeat', '%s:%d' % (name, lid[1]))

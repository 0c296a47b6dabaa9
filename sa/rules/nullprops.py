"""C01, C02, C03 and C13: the results of the NULL / argument analysis, by kind of source."""
import re
from core import Report, AnalysisError
from rules import nullcommon

# Pointer members that are absent by design (each is tested for NULL somewhere in the program, or
# filled in only under some condition).  Members the program relies on to be set are not listed.
OPTIONAL = '''
allow_rule.password allow_rule.username
auto_away_config.message auto_away_config.nick
channel_config.key
ctrlproxy_config.admin_user ctrlproxy_config.client_charset ctrlproxy_config.log_file ctrlproxy_config.motd_file
ctrlproxy_config.password ctrlproxy_config.replication
ctrlproxyd_config.configdir ctrlproxyd_config.address ctrlproxyd_config.port ctrlproxyd_config.ssl_credentials
daemon_backend.pass_check_cb daemon_client.servername daemon_client.description help.entries
global.unix_domain_socket_listener
irc_channel_state.topic irc_channel_state.topic_set_by irc_channel_state.chanmode_option
irc_listener.network irc_listener.log_fn irc_listener.ssl_credentials
irc_network.queries irc_network.linestack
irc_login_details.password network_config.password
irc_network_info.charset irc_network_info.chanlimit irc_network_info.extban_prefix irc_network_info.extban_supported irc_network_info.idchan irc_network_info.ircd
irc_network_info.supported_channel_modes irc_network_info.maxlist irc_network_info.name irc_network_info.statusmsg irc_network_info.supported_user_modes
irc_network_state.log
keyfile_entry.network
listener_config.address listener_config.certfile listener_config.keyfile listener_config.network listener_config.password listener_config.ssl_credentials
log_file_config.action log_file_config.join log_file_config.kick log_file_config.logbasedir log_file_config.logfilename
log_file_config.mode log_file_config.msg log_file_config.nickchange log_file_config.notice log_file_config.notopic
log_file_config.part log_file_config.quit log_file_config.topic log_file_info.file
network_config.autocmd network_config.filename
network_nick.fullname network_nick.hostname network_nick.server network_nick.username
nicklist_entry.by
anon:default_bind_address,servers.default_bind_address
tcp_server_config.bind_address tcp_server_config.password
'''.split()

# Operations that an implementer may leave out although no table in the tree does.
OPTIONAL_OPS = '''
irc_client_callbacks.disconnect irc_client_callbacks.free_private_data irc_client_callbacks.log_fn
irc_client_callbacks.process_to_client
irc_network_callbacks.disconnect irc_network_callbacks.log irc_network_callbacks.state_set
irc_listener_ops.new_client irc_listener_ops.socks_connect_fqdn irc_listener_ops.socks_connect_ipv4 irc_listener_ops.socks_connect_ipv6
virtual_network_ops.fini virtual_network_ops.init
'''.split()

# slots a table leaves NULL on purpose, where the caller's state already excludes those rows
STATE_BOUND = {('socks_method', 'handle_data'): 'SOCKS_STATE_AUTH is entered only for methods that have one'}

# members whose NULL never outlives the code that stores it, or that other state tells to be set
STATE_SET = {tuple(k.split('.')): v for k, v in {
    'linestack_context.line_file': 'create_linestack fails when it is NULL',
    'linestack_context.index_file': 'create_linestack fails when it is NULL',
    'irc_client.client_hostname': 'replaced by a constant when NULL',
    'listener_config.port': 'the result of strrchr is replaced when NULL',
    'network_config.type_settings': 'members of the union are read behind g_key_file_has_key tests',
    'anon:private_data,ops.ops': 'a connection of a virtual network exists only when its operations were found',
    'daemon_client.backend': 'the client counts as connected only after both were found',
    'daemon_client.user': 'the client counts as connected only after both were found',
    'irc_client.network': 'NULL only for clients that have not chosen a network; tested where that is possible',
}.items()}


def config(ctx):
    cfg = nullcommon.Cfg(ctx.prog)
    fields = ctx.prog.dt.fields
    opt = {tuple(x.split('.')) for x in OPTIONAL + OPTIONAL_OPS}
    missing = [x for x in opt if x[1] not in fields.get('struct.' + x[0], ())]
    cfg.slot_null = {s: t for s, t in ctx.g.slot_null.items() if s not in STATE_BOUND}
    cfg.nullable_fields = set(nullcommon.Cfg.nullable_fields) | opt | set(cfg.slot_null)
    cfg.ops = {tuple(x.split('.')) for x in OPTIONAL_OPS} | set(cfg.slot_null)
    if len(missing) > 10:
        raise AnalysisError('optional members not found: %s' % missing)
    return cfg


def kind(how, reason, q):
    if q is not None:
        return 'C01'
    if how == 'called':
        return 'C03'
    if 'index' in how or reason.startswith(('element ', 'argument ')) or 'irc_line.origin' in reason or 'vector index' in reason:
        return 'C01'
    return 'C02'


FN = re.compile(r'\((\w+)\)')


def collect(ctx):
    """[(kind, key, where, message, trail, source file, functions on the inlining chain)]"""
    cfg = config(ctx)
    last, summ, hist, inferred = nullcommon.analyse(ctx, cfg=cfg)
    # members that are given a value which may be NULL are optional, too
    more = {m: w for m, w in inferred.items() if m not in cfg.nullable_fields and m not in STATE_SET}
    if more:
        cfg.nullable_fields |= set(more)
        cfg.inferred = more
        last, summ, hist, inferred = nullcommon.analyse(ctx, cfg=cfg)
    out = []
    for n in sorted(last):
        to, f, q, rn, ob, dis = last[n]
        for x in f.values():
            where, fn, how, reason, expr, trail = x[:6]
            src = x[6] if len(x) > 6 else None
            if src:
                w, sfn, show, sq = src[:4]
                m = FN.search(w)
                key = '%s|%s|%s' % (m.group(1) if m else sfn, re.sub(r'\d+', '', show), 'parameter %s' % (sq,))
                msg = '%s %s: %s (needed by the code reached from %s at %s)' % (m.group(1) if m else sfn, show, reason, fn.split('#')[0], where)
                out.append((kind(show, reason, sq), key, w, msg, trail, w, where))
            else:
                m = FN.search(where)
                key = '%s|%s|%s' % (m.group(1) if m else fn, how, reason)
                out.append((kind(how, reason, None), key, where, '%s: %s (in %s)' % (how, reason, fn.split('#')[0]), trail, where, where))
    return out, last, hist, cfg


RULES = {
    'C01': 'every use of line->args[k], of an element of a split vector, of line->origin, or of a line passed on, is dominated on every '
           'path by facts that imply k <= argc (reading the slot) and k < argc (using the value); what a function needs of its '
           'parameters becomes an obligation at each of its call sites, command tables included',
    'C02': 'no pointer that may be NULL by its source (result of a lookup or of a library call that can fail, NULL constant, optional '
           'member) is dereferenced, passed to a parameter that is dereferenced, or asserted non-NULL on a path on which it was not found non-NULL',
    'C03': 'every call through a function-pointer member whose slot some constant table leaves NULL (or that is optional by contract) '
           'follows a test of that slot on the same path, or lies where the row with the NULL slot is excluded',
    'C13': 'in the code reached by the capability parser: every use of the value or of a component of a token follows a test that it is there',
}


def run(ctx, pid):
    found, last, hist, cfg = collect(ctx)
    rep = Report(RULES[pid])
    sel = []
    if pid == 'C13':
        roots = [n for n in ('network_info_parse', 'handle_005') if n in ctx.prog.funcs]
        roots += [n for n in ctx.prog.funcs if n.startswith('handle_005#')]
        if 'network_info_parse' not in roots:
            raise AnalysisError('the parser of a capability token was not found')
        reach = {r.split('#')[0] for r in ctx.g.reach(roots)} | {r.split('#')[0] for r in roots}
        files = {ctx.prog.where(next(iter(ctx.prog.funcs[n].insts()))).split(':')[0] for n in roots if n == 'network_info_parse'}
        for k, key, w, msg, trail, src, site in found:
            fns = set(FN.findall(site)) | set(FN.findall(src))
            if fns & reach and (src.split(':')[0] in files or site.split(':')[0] in files):
                sel.append((key, w, msg, trail))
        names = [n for n in last if n in ctx.prog.funcs and ctx.prog.funcs[n].blocks
                 and ctx.prog.where(next(iter(ctx.prog.funcs[n].insts()))).split(':')[0] in files]
    else:
        sel = [(key, w, msg, trail) for k, key, w, msg, trail, src, site in found if k == pid]
        names = list(last)
    for key, w, msg, trail in sel:
        rep.find(key, w, msg, trail)
    rep.obligations = sum(last[n][4] for n in names)
    rep.discharged = rep.obligations - len(rep.findings)
    rep.count('functions_analysed_as_roots', len(names))
    rep.count('fixpoint_rounds', len(hist))
    rep.count('optional_members', len(cfg.nullable_fields))
    rep.count('functions_with_requirements_on_callers', sum(1 for n in names if last[n][2]))
    rep.timeouts += [n for n in names if last[n][0]]
    if pid == 'C03':
        calls = [(f, i) for f, fn in ctx.prog.funcs.items() for i in fn.insts() if i.op == 'call' and i.x[0] != '@']
        opt = [i for f, i in calls if ctx.g.slot_of_call(f, i) in cfg.ops]
        rep.analysed['indirect_call_sites'] = len(calls)
        rep.analysed['call_sites_of_optional_slots'] = len(opt)
        rep.obligations, rep.discharged = len(opt), len(opt) - len(rep.findings)
        rep.floor('indirect_call_sites', 60)
        rep.samples = ['%s.%s left NULL by %s' % (s[0], s[1], ', '.join(sorted(t.split('#')[0] for t in v))) for s, v in sorted(cfg.slot_null.items())][:12]
    elif pid == 'C13':
        rep.floor('functions_analysed_as_roots', 3)
    else:
        rep.floor('functions_analysed_as_roots', 300)
        rep.samples = ['%s: %s' % (n, ', '.join(str(x) for x in sorted(last[n][2], key=str)[:4])) for n in names if last[n][2]][:12]
    return rep

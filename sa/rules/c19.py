"""C19: text of peers does not choose a file outside its directory"""
import guard
import names
from core import Report, AnalysisError

# text that the owner of the proxy or the system chose
TRUSTED = {'ctrlproxy_config', 'log_file_config', 'network_config', 'listener_config', 'ctrlproxyd_config', 'passwd', 'auto_away_config', ('irc_network', 'name'),
           'dirent', '_GError', '_GOptionEntry', 'ssl_options', ('tm', 'tm_zone')}
PATHSTRUCTS = {'daemon_user', 'linestack_context', 'log_custom_data', 'log_file_info', 'global'}
# what the owner asks for by an administration command
OWNER = {('admin_command', 'handler'), ('admin_setting', 'set'), ('admin_setting', 'get')}


def run(ctx):
    for s, f in (('ctrlproxy_config', 'config_dir'), ('log_file_config', 'logfilename'), ('irc_network', 'name'), ('irc_line', 'args'), ('daemon_user', 'configdir')):
        ctx.field_index(s, f)
    for n in ('process_cmd', 'log_support_write', 'get_daemon_user', 'create_linestack'):
        ctx.need(n)
    prog, g = ctx.prog, ctx.g
    an = names.Names(ctx, TRUSTED, PATHSTRUCTS)
    an.owner = {'process_cmd'}
    for slot, fs in g.slots.items():
        if tuple(slot[:2]) in OWNER:
            an.owner |= set(fs)
    if len(an.owner) < 10:
        raise AnalysisError('table of administration commands not found')
    rep = Report('every call that opens, creates, removes, renames or looks at a file: the text of the name, followed through string functions, buffers, members, '
                 'parameters and results (with constant flags followed into the callee), comes from the program, the configuration, the system or the owner '
                 'only, or from a string in which every separator has been replaced, or that was tested to have none, and which does not start with a dot')
    res = an.solve()
    for n, s in sorted(res.items()):
        rep.obligations += s.ob
        rep.discharged += s.ob
        for (what, src), (where, trail) in s.bad.items():
            rep.discharged -= 1
            rep.find('%s|%s|%s' % (n.split('#')[0], what, src), where, '%s: the name of a file comes from %s in %s' % (what, src or '?', n.split('#')[0]), trail)
        if not s.needs or n in an.owner:
            continue
        out = guard.outside(ctx, n)
        if n.split('#')[0].startswith('main'):
            continue
        if out or n in g.addr_taken and not an.callers.get(n):
            for k, (where, what, trail) in s.needs.items():
                rep.discharged -= 1
                rep.find('%s|%s|parameter %d' % (n.split('#')[0], what, k), where,
                         '%s: the name of a file comes from parameter %d of %s, which is called from outside' % (what, k, n.split('#')[0]), trail)
        else:
            rep.count('functions_whose_callers_choose_the_file')
    rep.count('functions_that_name_files', len(an.sinky))
    rep.count('calls_that_take_file_names', an.sinkcalls())
    rep.count('members_and_variables_that_keep_file_names', len(an.wanted))
    rep.floor('calls_that_take_file_names', 50)
    rep.floor('functions_that_name_files', 30)
    rep.floor('members_and_variables_that_keep_file_names', 3)
    rep.samples = ['%s: %s' % ('.'.join(k[1:]), '%s, %s' % v) for k, v in sorted(an.wanted.items())][:10]
    return rep

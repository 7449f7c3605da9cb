"""How the harness of each property is built. See run.py."""

RX = ['rx/flux', 'rx/mono', 'rx/flow', 'rx/await']
NET = ['proxy', 'handler', 'transport/rsocket', 'internal/socket', 'invoke'] + RX

# The guest runtime, compiled for this machine.
GUEST = {
    'transport/wasmrs/guest/imports_webassembly.go': 'h/guestshim/imports.go.txt',
    'internal/trap/trap_webassembly.go': 'h/guestshim/trap.go.txt',
    'internal/strbytes/unsafe_webassembly.go': '',
    'msgpack/unsafe_webassembly.go': 'h/guestshim/unsafe.go.txt',
}

# Guests whose host is at the other end of their standard input and output.
LINKED = dict(GUEST, **{'transport/wasmrs/guest/imports_webassembly.go': 'h/guestshim/link.go.txt'})

CHECKS = {
    'P01': dict(builds=[dict(harness='p01', libs=['framekit'])]),
    'P02': dict(builds=[dict(harness='p02', libs=['framekit'])]),
    'P03': dict(builds=[dict(harness='p03', libs=['framekit'])]),
    'P04': dict(builds=[dict(harness='p04', libs=['framekit'])]),
    'P05': dict(builds=[dict(harness='p05', libs=['framekit'], race=True, perturb=['transport/rsocket'])]),
    'P06': dict(builds=[dict(harness='p06', race=True, perturb=['internal/buffer'])]),
    'P07': dict(builds=[dict(harness='p07'), dict(name='race', harness='p07', race=True, perturb=['internal/socket', 'handler'])]),
    'P08': dict(builds=[dict(harness='p08', race=True, perturb=['proxy'])]),
    'P09': dict(builds=[dict(harness='p09', libs=['rpckit', 'farkit'], race=True, perturb=NET)]),
    'P10': dict(builds=[dict(harness='p10', libs=['rpckit', 'farkit'], race=True, perturb=NET)]),
    'P11': dict(builds=[dict(harness='p11', libs=['rpckit', 'farkit'], race=True, perturb=NET)]),
    'P12': dict(builds=[dict(harness='p12', libs=['rpckit', 'farkit'], race=True, perturb=NET)]),
    'P13': dict(builds=[dict(harness='p13', libs=['rpckit', 'farkit'], race=True, perturb=NET)]),
    'P14': dict(builds=[dict(harness='p14', libs=['rpckit', 'farkit'], race=True, perturb=NET)]),
    'P15': dict(builds=[dict(harness='p15', libs=['rpckit'], race=True, perturb=NET)]),
    'P16': dict(builds=[dict(harness='p16', libs=['rpckit'], race=True, perturb=NET)]),
    'P17': dict(builds=[dict(harness='p17', libs=['rpckit'], race=True, perturb=NET)]),
    'P18': dict(builds=[dict(harness='p18', race=True, perturb=RX)]),
    'P19': dict(builds=[dict(harness='p19', race=True, perturb=RX)]),
    'P20': dict(builds=[dict(harness='p20', race=True, perturb=RX), dict(name='guest', harness='p20', tags='wasi', replace=GUEST)]),
    'P21': dict(builds=[dict(harness='p21', race=True, perturb=RX), dict(name='guest', harness='p21', tags='wasi', replace=GUEST)]),
    'P22': dict(builds=[dict(harness='p22', libs=['msgkit']), dict(name='race', harness='p22', libs=['msgkit'], race=True, perturb=['msgpack'])]),
    'P23': dict(builds=[dict(harness='p23', libs=['msgkit'])]),
    'P24': dict(builds=[dict(harness='p24', libs=['msgkit'])]),
    'P25': dict(builds=[dict(harness='p25', libs=['msgkit']), dict(name='race', harness='p25', libs=['msgkit'], race=True, perturb=['msgpack', 'transform'])]),
    'P26': dict(builds=[dict(harness='p26', libs=['rpckit', 'wasmkit'])]),
    'P27': dict(builds=[dict(harness='p27')]),
    'P28': dict(builds=[dict(harness='p28', race=True, perturb=['invoke'])]),
    'P29': dict(builds=[dict(harness='p29', race=True, perturb=['types/uuid'], goenv=dict(GOWORK=''))]),
    'P30': dict(builds=[dict(harness='p30')]),
    'P31': dict(builds=[dict(harness='p31', libs=['wasmkit'], race=True, perturb=['transport/wasmrs/host', 'proxy', 'internal/buffer'] + RX)]),
    'P33': dict(builds=[dict(harness='p33', libs=['meshkit'], race=True, perturb=['transport/wasmrs/mesh', 'transport/wasmrs/host', 'proxy'])]),
    'P34': dict(builds=[dict(harness='p34', libs=['rpckit'], race=True, perturb=RX + ['transform', 'proxy']), dict(name='guest', harness='p34', tags='wasi', replace=GUEST)]),
    'P35': dict(builds=[dict(harness='p35', libs=['rpckit', 'farkit'], race=True, perturb=NET)]),
    'P36': dict(builds=[dict(harness='p36', libs=['rpckit', 'msgkit'], race=True, perturb=NET + ['transform', 'transport/wasmrs/example', 'transport/wasmrs/example/concat', 'transport/wasmrs/example/greeter', 'transport/wasmrs/example/wordfrequency'])]),
    'P37': dict(builds=[dict(harness='p37', libs=['meshkit', 'msgkit'], programs=[
        ('wasmrs', 'transport/wasmrs/cmd/wasmrs', '.'), ('wasmrs-ops', '.', './transport/wasmrs/cmd/wasmrs-ops'),
        ('flow', '.', './transport/wasmrs/cmd/flow'), ('wordfrequency', '.', './transport/wasmrs/cmd/wordfrequncy'),
        ('greeter-server', '.', './example/greeter/server'), ('greeter-client', '.', './example/greeter/client')],
        instead={'greeter-client': ('example/greeter/client/main.go', 'h/p37/client.go.txt')})],
        technique='runtime monitoring: the programs, built with the race detector, are run on generated modules and inputs; their output, exit status and files are compared with a reference'),
    'P39': dict(builds=[dict(harness='p39', libs=['meshkit'], race=True, perturb=['transport/wasmrs/host', 'proxy'])]),
    'P32': dict(builds=[dict(harness='p32', tags='wasi', replace=GUEST)]),
    'P38': dict(builds=[dict(harness='p38', libs=['guestlink', 'guestprog', 'msgkit'], race=True, perturb=['transport/wasmrs/host', 'transport/wasmrs/mesh', 'proxy'] + RX,
        guest_replace=LINKED, guest_libs=['guestprog'], guests=[
            ('guest', 'verifh/p38guest'), ('example-guest', 'transport/wasmrs/cmd/guest'), ('components', 'transport/wasmrs/cmd/fbp/guest'),
            ('concat', 'transport/wasmrs/mesh/modules/concat/cmd'), ('greeting', 'transport/wasmrs/mesh/modules/greeting/cmd'),
            ('customer', 'transport/wasmrs/mesh/modules/customer/cmd')],
        programs=[('host', '.', './transport/wasmrs/cmd/host'), ('components-host', '.', './transport/wasmrs/cmd/fbp/host')])],
        technique='runtime monitoring: programs for guests, compiled for this machine, run behind modules of the real host and mesh; outcomes of random calls that cross the boundary up to several times are compared with a reference; race detector on the host'),
}

NOT_APPLICABLE = {}

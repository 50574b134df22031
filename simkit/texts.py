"""Small Verilog texts for the session-level checks (no behaviour needed)."""


def expr(r, names, depth=2):
    k = r.random()
    if depth == 0 or k < 0.35:
        c = r.random()
        if c < 0.7 and names:
            return r.choice(names)
        return r.choice(["4'd%d" % r.randrange(16), "8'h%02x" % r.randrange(256), str(r.randrange(100)),
                         "3'b%s" % format(r.randrange(8), '03b')])
    a, b = expr(r, names, depth - 1), expr(r, names, depth - 1)
    if k < 0.75:
        return '(%s %s %s)' % (a, r.choice(['+', '-', '&', '|', '^', '==', '<', '&&', '<<']), b)
    if k < 0.85:
        return '(%s ? %s : %s)' % (expr(r, names, 0), a, b)
    if k < 0.93:
        return '{%s, %s}' % (a, b)
    return '(~%s)' % a


def module(r, name, leaf=None, params=True):
    """One module; `leaf` optionally names a module to instantiate."""
    n_in = r.randint(1, 3)
    ins = ['%s_i%d' % (name, i) for i in range(n_in)]
    w = r.choice([1, 2, 4, 8])
    L = []
    L.append('module %s' % name)
    if params and r.random() < 0.6:
        L.append(' #(parameter WID = %d)' % w)
    else:
        params = False
    L.append(' (input CLK, input RST,')
    for i in ins:
        L.append('  input [%d:0] %s,' % (w - 1, i))
    L.append('  output [%d:0] out_%s);' % (w - 1, name))
    regs = ['r%d' % i for i in range(r.randint(1, 3))]
    for g in regs:
        L.append('  reg [%d:0] %s;' % (w - 1, g))
    wires = ['w%d' % i for i in range(r.randint(0, 2))]
    names = list(ins) + regs
    for g in wires:
        L.append('  wire [%d:0] %s;' % (w - 1, g))
        L.append('  assign %s = %s;' % (g, expr(r, names)))
    names += wires
    for g in regs:
        L.append('  always @(posedge CLK%s) begin' % (' or posedge RST' if r.random() < 0.5 else ''))
        L.append('    if(RST) begin')
        L.append('      %s <= %d;' % (g, r.randrange(2)))
        L.append('    end else begin')
        k = r.random()
        if k < 0.4:
            L.append('      %s <= %s;' % (g, expr(r, names)))
        elif k < 0.7:
            L.append('      if(%s) %s <= %s;' % (expr(r, names, 1), g, expr(r, names)))
            L.append('      else %s <= %s;' % (g, expr(r, names)))
        else:
            L.append('      case(%s)' % r.choice(names))
            for c in range(r.randint(1, 3)):
                L.append('        %d: %s <= %s;' % (c, g, expr(r, names, 1)))
            L.append('        default: %s <= %s;' % (g, expr(r, names, 1)))
            L.append('      endcase')
        L.append('    end')
        L.append('  end')
    if leaf:
        lname, lins, lw, lparams = leaf
        L.append('  wire [%d:0] sub_out;' % (lw - 1))
        conns = ['.CLK(CLK)', '.RST(RST)'] + ['.%s(%s)' % (p, r.choice(names)) for p in lins]
        conns.append('.out_%s(sub_out)' % lname)
        L.append('  %s%s u_%s (%s);' % (lname, ' #(.WID(%d))' % r.randint(1, 9) if lparams and r.random() < .5 else '',
                                       lname, ', '.join(conns)))
        names = names + ['sub_out']
    L.append('  assign out_%s = %s;' % (name, expr(r, names)))
    L.append('endmodule')
    return '\n'.join(L) + '\n', (name, ins, w, params)


def design(r, tag=''):
    """One or two modules; returns (text, top name)."""
    if r.random() < 0.5:
        t, _ = module(r, 'TOP%s' % tag)
        return t, 'TOP%s' % tag
    lt, leaf = module(r, 'LEAF%s' % tag)
    t, _ = module(r, 'TOP%s' % tag, leaf)
    return (lt + '\n' + t if r.random() < 0.5 else t + '\n' + lt), 'TOP%s' % tag


def broken(r, text):
    """A text that does not parse, the error being at a seeded place."""
    toks = text.split(';')
    i = r.randrange(len(toks))
    toks[i] += r.choice([' ) ', ' endmodule ', ' begin ', ' 4\' ', ' ?? ', ' module '])
    return ';'.join(toks)


# ------------------------------------------------------------------ every construct the parser and generator know
GALLERY_ITEMS = '''
wire [W-1:0] x0, x1 ;
reg [7:0] mem [0:15];
reg signed [W-1:0] sg;
wire signed [3:0] sw = 4'sd3;
tri [1:0] tr;
supply0 gnd;
supply1 vdd;
integer ii, jj;
real rr;
parameter PA = 3, PB = "text";
parameter signed [3:0] PC = -1;
parameter integer PI = 7;
localparam LA = PA * 2;
localparam [4:0] LB = 5'b1_0101;
localparam signed LC = 4;
genvar g0, g1;
assign #3 y0 = a & b | c ^ d;
assign {y1, y2[3:0]} = {a[3:0], 2'b01, {2{b}}};
assign y3 = a ? b + c * d : -(a - b) % c;
assign y4 = (a ** 2) / 3 << 1 >> 2 >>> 1 <<< 1;
assign y5 = !a && (b || ~c) && (a == b) || (a != c) && (a === d) || (b !== c);
assign y6 = &a ^ |b ^ ^c + (~&a) + (~|b) + (~^c) + (+a);
assign y7 = (a < b) + (a <= b) + (a > b) + (a >= b) ~^ d;
assign y8 = mem[3][2:1] + mem[a] + a[b +: 2] + a[7 -: 3] + a[3:0];
assign y9 = 'hff + 8'o17 + 12'sd9 + 1.5 + 3'bx0z;
assign y10 = $signed(a) + $time + fn(a, b);
assign top.u.y11[2] = sub.k.z;
always @(posedge CLK) q <= d;
always @(posedge CLK or negedge RST) begin q <= #1 d; q2[3:0] <= 4'd0; {q3, q4} <= a; end
always @(posedge CLK, negedge RST[0]) if(RST) q <= 0; else q <= d;
always @(a or b or c[0]) q = a;
always @(*) begin : named
  reg [3:0] t;
  t = a;
  q = t;
end
always @* begin end
always_comb begin q = a; end
always_ff @(posedge CLK) begin q <= a; end
always_latch begin if(CLK) q <= a; end
always @(posedge CLK) begin case(a) 0: q <= 1; 1, 2: begin q <= 2; q2 <= 3; end default: q <= 0; endcase end
always @(posedge CLK) casex(a) 4'b1xx0: q <= 1; endcase
always @(posedge CLK) casez(a) 4'b1??0: q <= 1; default: ; endcase
always @(posedge CLK) unique case(a) 1: q <= 1; endcase
always @(posedge CLK) begin for(ii = 0; ii < 4; ii = ii + 1) mem[ii] <= ii; end
always @(posedge CLK) begin while(ii < 4) begin ii = ii + 1; end end
always @(posedge CLK) begin if(a) begin if(b) q <= 1; else q <= 2; end else if(c) q <= 3; end
initial begin q = 0; #10 q = 1; #(3+2) ; $display("v = %d\\n", q); @(posedge CLK) ; wait(a) q = 1; #5; end
initial begin forever begin #5 CLK = !CLK; end end
initial fork q = 1; q2 = 2; join
initial begin : stop disable stop; end
function [7:0] fn; input [7:0] p, o; begin fn = p + o; end endfunction
function fb; input p; reg t; begin t = p; fb = ~t; end endfunction
function integer fi; input p; begin for(fi = 0; p > 0; fi = fi + 1) fi = fi; end endfunction
task tk; input [7:0] p; begin q = p; $write("x"); end endtask
sub u0(.CLK(CLK), .a(a), .b());
sub #(4, 8) u1(CLK, a + b);
sub #(.P(3), .Q(W)) u2(.a({a, b})), u3(.a(b));
sub u4[3:0](.a(a));
and g_and(y0, a, b);
not (y1, a);
generate for(g0 = 0; g0 < 4; g0 = g0 + 1) begin : gen wire t; assign t = a[g0]; sub u(.a(t)); end endgenerate
generate if(W > 3) begin : big assign y1 = 1; end else begin : small assign y1 = 0; end endgenerate
generate if(W == 3) assign y2 = 1; endgenerate
(* keep = "yes" *) (* full_case *) wire kept;
wire \\esc-name ;
assign \\esc-name = \\in+put  & (a);
'''.strip('\n')


def _items():
    ret, cur = [], ''
    for line in GALLERY_ITEMS.split('\n'):
        if line.startswith((' ', 'end')):
            ret[-1] += '\n' + line
        else:
            ret.append(line)
    return ret


GALLERY = _items()
HEADERS = [
    'module %s (CLK, RST, a, b);\n  input CLK, RST;\n  input [7:0] a, b;',
    'module %s #(parameter W = 8, parameter signed [3:0] V = 2) (input CLK, input wire RST, input [W-1:0] a, '
    'output reg [7:0] q, output signed [3:0] s, inout io);',
    'module %s #(parameter integer W = 4, parameter [2:0] E = 1) (input CLK, RST, output [1:0] y);',
    'module %s ();', 'module %s;',
]


def gallery(r, name='GAL', most=12):
    """A module made of seeded constructs, for the checks that only need syntax."""
    items = r.sample(GALLERY, r.randint(1, most))
    t = r.choice(HEADERS) % name + '\n' + ''.join('  %s\n' % i for i in items) + 'endmodule\n'
    if r.random() < 0.2:
        t = '`default_nettype none\n' + t
    return t


def unanalysable(r, text):
    """Parses, but the analyzer has to reject it."""
    k = r.randrange(4)
    if k == 0:
        bad = '  NOSUCH u_bad (.CLK(CLK));\n'
    elif k == 1:
        bad = '  assign nosuch_%d = no_such_signal + 1;\n' % r.randrange(9)
    elif k == 2:
        bad = '  always @(posedge CLK) begin nosuch <= undefined_one; end\n'
    else:
        bad = '  wire dup; wire dup; assign dup = u_none.x;\n'
    parts = text.split('endmodule')
    i = r.randrange(len(parts) - 1)
    parts[i] += bad
    return 'endmodule'.join(parts)


def fsm(r):
    """A small state machine."""
    n = r.randint(2, 5)
    var = r.choice(['state', 'fsm', 'count', 'mode'])
    L = ['module TOP(input CLK, input RST, input go, input [1:0] sel, output [2:0] out, output reg busy);',
         '  reg [2:0] %s;' % var]
    if r.random() < 0.5:
        L.append('  localparam ' + ', '.join('S%d = %d' % (k, k) for k in range(n)) + ';')
        s = lambda k: 'S%d' % k
    else:
        s = lambda k: str(k)
    L += ['  always @(posedge CLK) begin', '    if(RST) begin', '      %s <= %s;' % (var, s(0)), '      busy <= 0;',
          '    end else begin']
    if r.random() < 0.5:
        L.append('      case(%s)' % var)
        for k in range(n):
            L.append('        %s: begin' % s(k))
            L.append('          if(%s) %s <= %s;' % (r.choice(['go', 'sel == 1', 'sel > 1', 'go && sel[0]', '!go']), var,
                                                 s(r.randrange(n))))
            if r.random() < 0.5:
                L.append('          else %s <= %s;' % (var, s(r.randrange(n))))
            if r.random() < 0.5:
                L.append('          busy <= %d;' % r.randrange(2))
            L.append('        end')
        L.append('      endcase')
    else:
        for k in range(n):
            L.append('      %sif(%s == %s%s) begin %s <= %s; busy <= %d; end'
                     % ('else ' if k else '', var, s(k), r.choice(['', ' && go', ' || sel == 2']), var, s(r.randrange(n)), k % 2))
    L += ['    end', '  end', '  assign out = %s;' % var, 'endmodule']
    return '\n'.join(L) + '\n', 'TOP'

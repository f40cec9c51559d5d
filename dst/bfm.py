"""Verilog environment models. Every decision they take comes from the
schedule bits `st` (one word per simulated cycle) and static mode bits."""

VR_MON = r'''
module vr_mon #(parameter W=8, parameter NAME="?")
 (input CLK, input RST, input [31:0] cyc, input valid, input ready, input [W-1:0] data);
  reg pv; reg [W-1:0] pd;
  initial pv = 0;
  always @(posedge CLK) begin
    if(RST !== 1'b0) pv <= 0;
    else begin
      if(valid === 1'bx || valid === 1'bz) $display("VX %0s %0d", NAME, cyc);
      if(ready === 1'bx || ready === 1'bz) $display("VR %0s %0d", NAME, cyc);
      if(pv && valid !== 1'b1) $display("VS %0s %0d valid dropped before ready", NAME, cyc);
      if(pv && valid === 1'b1 && data !== pd) $display("VS %0s %0d payload changed before ready: %0h -> %0h", NAME, cyc, pd, data);
      if(valid === 1'b1 && (^data) === 1'bx) $display("VD %0s %0d undefined payload %0h", NAME, cyc, data);
      pv <= (valid === 1'b1) && (ready !== 1'b1);
      pd <= data;
    end
  end
endmodule
'''

AXI_SLAVE = r'''
module axi_slave_bfm #(parameter DW=32, parameter AW=32, parameter LITE=0, parameter QD=16)
 (input CLK, input RST, input [31:0] cyc, input [4:0] st, input [3:0] mode, input [31:0] salt,
  input [AW-1:0] awaddr, input [7:0] awlen, input [2:0] awsize, input [1:0] awburst, input awvalid, output awready,
  input [DW-1:0] wdata, input [DW/8-1:0] wstrb, input wlast, input wvalid, output wready,
  output [1:0] bresp, output reg bvalid, input bready,
  input [AW-1:0] araddr, input [7:0] arlen, input [2:0] arsize, input [1:0] arburst, input arvalid, output arready,
  output reg [DW-1:0] rdata, output [1:0] rresp, output reg rlast, output reg rvalid, input rready);
  localparam NB = DW/8;
  reg [7:0] mem [0:65535];
  integer i;
  function [7:0] rdmem(input [15:0] a);
    reg [31:0] mix;
    begin
      rdmem = mem[a];
      if(rdmem === 8'bx) begin mix = (a*32'h9E3779B1) ^ salt; mix = mix ^ (mix >> 15); mix = mix * 32'h85EBCA6B; rdmem = mix[31:24]; end
    end
  endfunction
  reg [AW-1:0] awq_a [0:63]; reg [7:0] awq_l [0:63];
  reg [AW-1:0] arq_a [0:63]; reg [7:0] arq_l [0:63];
  reg [DW-1:0] wq_d [0:4095]; reg [NB-1:0] wq_s [0:4095]; reg wq_l [0:4095];
  integer awh, awt, arh, art, wh, wt, bpend, wbeat, rbeat;
  // mode[0]: AWREADY waits for WVALID; mode[1]: WREADY waits for an accepted AW
  // mode[2]: ready only while valid (ready waits for valid)
  assign awready = !RST && !st[0] && (awt-awh < QD) && (!mode[0] || wvalid || wt != wh) && (!mode[2] || awvalid);
  assign wready  = !RST && !st[1] && (wt-wh < 2048) && (!mode[1] || (awh != awt)) && (!mode[2] || wvalid);
  assign arready = !RST && !st[3] && (art-arh < QD) && (!mode[2] || arvalid);
  assign bresp = 0; assign rresp = 0;
  reg [AW-1:0] ca; reg [AW-1:0] ra;
  reg prst; initial prst = 1;
  always @(posedge CLK) begin
    prst <= RST;
    if(RST) begin
      if(!prst) for(i=0;i<65536;i=i+1) mem[i] = 8'bx;
      awh=0; awt=0; arh=0; art=0; wh=0; wt=0; bpend=0; wbeat=0; rbeat=0;
      bvalid <= 0; rvalid <= 0; rlast <= 0; rdata <= 0;
    end else begin
      // B handshake
      if(bvalid && bready === 1'b1) begin $display("B %0d", cyc); end
      if(rvalid && rready === 1'b1) begin $display("R %0d %0h %0d", cyc, rdata, rlast); end
      // sample inputs (values before this edge)
      if(awvalid === 1'b1 && awready) begin
        $display("AW %0d %0h %0d %0d %0d", cyc, awaddr, awlen, awsize, awburst);
        awq_a[awt%64] = awaddr; awq_l[awt%64] = LITE ? 0 : awlen; awt = awt + 1;
      end
      if(arvalid === 1'b1 && arready) begin
        $display("AR %0d %0h %0d %0d %0d", cyc, araddr, arlen, arsize, arburst);
        arq_a[art%64] = araddr; arq_l[art%64] = LITE ? 0 : arlen; art = art + 1;
      end
      if(wvalid === 1'b1 && wready) begin
        $display("W %0d %0h %0h %0d", cyc, wdata, wstrb, wlast);
        wq_d[wt%4096] = wdata; wq_s[wt%4096] = wstrb; wq_l[wt%4096] = wlast; wt = wt + 1;
      end
      // R channel
      if(!rvalid || rready === 1'b1) begin
        if(arh != art && !st[4]) begin
          ra = arq_a[arh%64]; ra = (ra / NB) * NB + rbeat * NB;
          for(i=0;i<NB;i=i+1) rdata[i*8 +: 8] <= rdmem(ra + i);
          rlast <= (rbeat == arq_l[arh%64]);
          rvalid <= 1;
          if(rbeat == arq_l[arh%64]) begin rbeat = 0; arh = arh + 1; end else rbeat = rbeat + 1;
        end else begin rvalid <= 0; rlast <= 0; end
      end
      // commit one beat
      if(wh != wt && awh != awt) begin
        ca = awq_a[awh%64]; ca = (ca / NB) * NB + wbeat * NB;
        for(i=0;i<NB;i=i+1) if(wq_s[wh%4096][i]) mem[(ca+i) & 16'hffff] = wq_d[wh%4096][i*8 +: 8];
        if(!LITE && (wq_l[wh%4096] !== (wbeat == awq_l[awh%64]))) $display("VL %0d wlast=%0d at beat %0d of awlen %0d", cyc, wq_l[wh%4096], wbeat, awq_l[awh%64]);
        if(wbeat == awq_l[awh%64]) begin wbeat = 0; awh = awh + 1; bpend = bpend + 1; $display("C %0d", cyc); end
        else wbeat = wbeat + 1;
        wh = wh + 1;
      end
      // B channel
      if(!bvalid || bready === 1'b1) begin
        if(bpend > 0 && !st[2]) begin bvalid <= 1; bpend = bpend - 1; end
        else bvalid <= 0;
      end
    end
  end
endmodule
'''


def mem_init_byte(addr, salt):
    m = ((addr * 0x9E3779B1) & 0xffffffff) ^ salt
    m ^= m >> 15
    m = (m * 0x85EBCA6B) & 0xffffffff
    return m >> 24


def skeleton(body, decls='', schlen=4096, maxcyc=40000, rst_active='1', schw=32):
    """A test bench: clock, cycle counter, schedule, cycle budget.

    The run directory holds sched.hex, params via +p0=.. plusargs file p.hex.
    bit 31 of the schedule is reset.
    """
    return r'''
`timescale 1ns/1ps
module tb;
  reg CLK; initial CLK = 0;
  always #5 CLK = !CLK;
  reg [31:0] cyc; initial cyc = 0;
  always @(posedge CLK) cyc <= cyc + 1;
  reg [%(schw)d-1:0] sched [0:%(schlen)d-1];
  reg [31:0] prm [0:63];
  initial begin $readmemh("sched.hex", sched); $readmemh("p.hex", prm); end
  wire [%(schw)d-1:0] st = (cyc < %(schlen)d) ? sched[cyc] : 0;
  wire RST = st[31];
  wire RSTP = (%(rst_active)s) ? RST : !RST;
  wire [31:0] maxcyc = prm[0];
  always @(posedge CLK) if(cyc >= maxcyc) begin $display("TIMEOUT %%0d", cyc); $finish; end
%(decls)s
%(body)s
endmodule
''' % dict(body=body, decls=decls, schlen=schlen, rst_active=rst_active, schw=schw)


AXI_MASTER = r'''
// ops: 8 words each: kind(0 end,1 read,2 write), addr, beats-1, seed, nr, nw, hw, strb
// an op is issued once nr reads and nw writes have completed and hwp >= hw
module axi_master_bfm #(parameter DW=32, parameter AW=32, parameter FILE="mops.hex", parameter N="M", parameter LITE=0)
 (input CLK, input RST, input [31:0] cyc, input [4:0] st, input [31:0] hwp, output [31:0] mi, output mdone,
  output reg [15:0] awid, output reg [AW-1:0] awaddr, output reg [7:0] awlen, output reg awvalid, input awready,
  output reg [DW-1:0] wdata, output reg [DW/8-1:0] wstrb, output reg wlast, output reg wvalid, input wready,
  input [15:0] bid, input [1:0] bresp, input bvalid, output bready,
  output reg [15:0] arid, output reg [AW-1:0] araddr, output reg [7:0] arlen, output reg arvalid, input arready,
  input [15:0] rid, input [DW-1:0] rdata, input [1:0] rresp, input rlast, input rvalid, output rready);
  reg [31:0] ops [0:1023];
  integer iw, id, ir, nrd, nwd, beat, rcomp, rbeat, k;
  function [DW-1:0] dgen(input [31:0] seed, input [31:0] b);
    reg [31:0] h; integer q;
    begin
      for(q=0;q<(DW+31)/32;q=q+1) begin
        h = seed ^ (b * 32'h9E3779B1) ^ (q * 32'h7F4A7C15); h = h ^ (h >> 16); h = h * 32'h85EBCA6B; h = h ^ (h >> 13); h = h * 32'hC2B2AE35; h = h ^ (h>>16);
        dgen = (DW > 32) ? {h, dgen} >> ((DW > 32) ? 32 : 0) : h;
      end
    end
  endfunction
  function ok(input integer i); ok = (nrd >= ops[i*8+4]) && (nwd >= ops[i*8+5]) && (hwp >= ops[i*8+6]); endfunction
  assign bready = !RST && !st[2];
  assign rready = !RST && !st[4];
  assign mi = nrd + nwd;
  reg ended; assign mdone = ended;
  integer tot;
  initial begin $readmemh(FILE, ops); tot = 0; while(ops[tot*8] != 0) tot = tot + 1; end
  always @(posedge CLK) begin
    if(RST) begin
      iw=0; id=0; ir=0; nrd=0; nwd=0; beat=0; rcomp=0; rbeat=0; ended=0;
      awvalid<=0; wvalid<=0; arvalid<=0; awaddr<=0; awlen<=0; wdata<=0; wstrb<=0; wlast<=0; araddr<=0; arlen<=0;
    end else begin
      if(awvalid && awready === 1'b1) $display("AWH %0s %0d %0d", N, iw-1, cyc);
      if(arvalid && arready === 1'b1) $display("ARH %0s %0d %0d", N, ir-1, cyc);
      if(wvalid && wready === 1'b1) $display("WH %0s %0d %0d %0h", N, id-(wlast?1:0), cyc, wdata);
      if(bvalid === 1'b1 && bready) begin $display("BH %0s %0d %0d %0h", N, cyc, bresp, bid); nwd = nwd + 1; end
      if(rvalid === 1'b1 && rready) begin
        while(ops[rcomp*8] == 2) rcomp = rcomp + 1;
        $display("RH %0s %0d %0h %0d %0d %0d %0h", N, cyc, rdata, LITE ? 1'b1 : rlast, rcomp, rresp, rid);
        if(rbeat == ops[rcomp*8+2]) begin rbeat = 0; rcomp = rcomp + 1; nrd = nrd + 1; end else rbeat = rbeat + 1;
      end
      // AW
      if(!awvalid || awready === 1'b1) begin
        while(ops[iw*8] == 1) iw = iw + 1;
        if(ops[iw*8] == 2 && ok(iw) && !st[0]) begin
          awvalid <= 1; awid <= ops[iw*8+7][31:16]; awaddr <= ops[iw*8+1]; awlen <= ops[iw*8+2]; $display("AWV %0s %0d %0d", N, iw, cyc); iw = iw + 1;
        end else begin awvalid <= 0; awaddr <= {AW{1'bx}}; awlen <= 8'bx; end
      end
      // W
      if(!wvalid || wready === 1'b1) begin
        while(ops[id*8] == 1) id = id + 1;
        if(ops[id*8] == 2 && ok(id) && !st[1]) begin
          wvalid <= 1; wdata <= dgen(ops[id*8+3], beat); wlast <= (beat == ops[id*8+2]);
          for(k=0;k<DW/8;k=k+1) wstrb[k] <= (ops[id*8+7][15:0] == 0) ? 1'b1 : (((ops[id*8+7] >> ((beat+k) & 15)) & 1) == 1);
          if(beat == ops[id*8+2]) begin beat = 0; id = id + 1; end else beat = beat + 1;
        end else begin wvalid <= 0; wdata <= {DW{1'bx}}; wstrb <= {(DW/8){1'bx}}; wlast <= 1'bx; end
      end
      // AR
      if(!arvalid || arready === 1'b1) begin
        while(ops[ir*8] == 2) ir = ir + 1;
        if(ops[ir*8] == 1 && ok(ir) && !st[3]) begin
          arvalid <= 1; arid <= ops[ir*8+7][31:16]; araddr <= ops[ir*8+1]; arlen <= ops[ir*8+2]; $display("ARV %0s %0d %0d", N, ir, cyc); ir = ir + 1;
        end else begin arvalid <= 0; araddr <= {AW{1'bx}}; arlen <= 8'bx; end
      end
      ended = (nrd + nwd >= tot);
    end
  end
endmodule
'''


def dgen(seed, b, dw):
    out = 0
    n = (dw + 31) // 32
    for q in range(n):
        h = (seed ^ (b * 0x9E3779B1) ^ (q * 0x7F4A7C15)) & 0xffffffff
        h ^= h >> 16
        h = (h * 0x85EBCA6B) & 0xffffffff
        h ^= h >> 13
        h = (h * 0xC2B2AE35) & 0xffffffff
        h ^= h >> 16
        out |= h << (32 * q)
    return out & ((1 << dw) - 1)


def wstrb_bit(pat, beat, k):
    return 1 if (pat & 0xffff) == 0 else (pat >> ((beat + k) & 15)) & 1


def write_mops(rd, name, mops):
    w = []
    for o in mops:
        w += [o['k'], o['a'], o.get('n', 1) - 1, o.get('s', 0), o.get('nr', 0), o.get('nw', 0), o.get('hw', 0), o.get('strb', 0) | o.get('id', 0) << 16]
    w += [0] * (1024 - len(w))
    with open('%s/%s' % (rd, name), 'w') as f:
        for x in w:
            f.write('%x\n' % (x & 0xffffffff))

# P25: exhaustive enumeration of Ruby values and of histories of several containers through the FFI interface.
# usage: ruby p25.rb LIB FFI.rb --out DIR --workers N [--thorough] [--only ID] [--describe] [--hang S]
require 'digest'
LIB, FFIRB = ARGV[0], ARGV[1]
opt = { out: '.', workers: 8, thorough: false, only: nil, describe: false, hang: 60.0 }
i = 2
while i < ARGV.length
  case ARGV[i]
  when '--out' then opt[:out] = ARGV[i += 1]
  when '--workers' then opt[:workers] = ARGV[i += 1].to_i
  when '--thorough' then opt[:thorough] = true
  when '--only' then opt[:only] = ARGV[i += 1].to_i
  when '--describe' then opt[:describe] = true
  when '--hang' then opt[:hang] = ARGV[i += 1].to_f
  end
  i += 1
end
module GenericContainer; end
GenericContainer.instance_variable_set(:@libGenericContainer, LIB)
load FFIRB
GCC = ::GenericContainer::GenericContainer

class HashLike
  def initialize(h) @h = h end
  def to_hash() @h end
  def inspect() "HashLike(#{@h.inspect})" end
end

RULE = 'every Ruby value built from booleans, 32-bit integers, floats, strings, symbols, hashes and arrays: all arrays up to a length over the element universe, all hashes over the key/value universe, nesting of each in each, loaded over every earlier content; integers and strings C cannot represent must be refused; all histories of load/failing load/fill_for_test/get_data on two or three containers up to a depth, every container compared with what was loaded into it last'

class Bad < StandardError; end

# --- reference model: what get_data has to return -------------------------
def num?(v) v.is_a?(Integer) || v.is_a?(Float) end
def same_float(a, b) (a.nan? && b.nan?) || [a].pack('G') == [b].pack('G') end
# got denotes want
def same(want, got)
  case want
  when true, false then got.equal?(want)
  when Integer then got.is_a?(Integer) && got == want
  when Float then got.is_a?(Float) && same_float(want, got)
  when String, Symbol then got.is_a?(String) && got.b == want.to_s.b
  when Array
    return false unless got.is_a?(Array) && got.length == want.length
    if want.all? { |x| num?(x) } && want.any? { |x| x.is_a?(Float) } && want.any? { |x| x.is_a?(Integer) }
      want.zip(got).all? { |w, g| num?(g) && same_float(w.to_f, g.to_f) }
    else
      want.zip(got).all? { |w, g| same(w, g) }
    end
  when Hash, HashLike
    h = want.to_hash
    return false unless got.is_a?(Hash) && got.length == h.length
    gk = {}
    got.each { |k, v| return false unless k.is_a?(Symbol); gk[k.to_s.b] = v }
    h.all? { |k, v| gk.key?(k.to_s.b) && same(v, gk[k.to_s.b]) }
  else false
  end
end
def bad?(v)
  case v
  when Integer then v > 2**31 - 1 || v < -2**31
  when String then v.include?("\0")
  when Symbol then v.to_s.include?("\0")
  when Array then v.any? { |x| bad?(x) }
  when Hash, HashLike then v.to_hash.any? { |k, x| k.to_s.include?("\0") || bad?(x) }
  else false
  end
end

class Run
  attr_accessor :done, :trans, :nfail, :total
  def initialize(opt, w, out)
    @opt, @w, @out = opt, w, out
    @id = -1; @done = @trans = @nfail = 0; @states = {}; @nsamp = 0
  end
  def run(desc)
    @id += 1
    if @opt[:only] then return unless @id == @opt[:only]
    else return unless @id % @opt[:workers] == @w end
    if @opt[:describe] then puts desc.call; exit 0 end
    return if @opt[:resume] && @id <= @opt[:resume]
    File.write("#{@out}/cur.#{@w}", @id.to_s) if (@done & 15) == 0 || @opt[:only] || @opt[:careful]
    begin
      yield
    rescue Bad => e
      fail_(desc, e.message)
    rescue StandardError, NotImplementedError, ScriptError => e
      fail_(desc, "unexpected #{e.class}: #{e.message.b[0, 200].inspect}")
    end
    @done += 1
    if @nsamp < 3 && @id % 1009 < 8 then @nsamp += 1; File.open("#{@out}/samples.#{@w}", 'a') { |f| f.puts desc.call[0, 300].gsub(/[\t\n]/, ' ') } end
  end
  def fail_(desc, m)
    @nfail += 1
    return if @nfail > 20
    File.open("#{@out}/fail.#{@w}", 'a') { |f| f.puts [@id, desc.call[0, 1500].gsub(/[\t\n]/, ' '), m[0, 1500].gsub(/[\t\n]/, ' ')].join("\t") }
  end
  def state(v) @states[Digest::MD5.digest(v.inspect)[0, 8]] = true end
  def finish
    @total = @id + 1
    File.binwrite("#{@out}/states.#{@w}", @states.keys.join)
    File.write("#{@out}/done.#{@w}", [@done, @trans, @nfail, @total].join(' '))
  end
end

def req(c, m) raise Bad, (m.is_a?(Proc) ? m.call : m) unless c end

def load_get(r, gc, v)
  if bad?(v)
    raised = false
    begin gc.load v; rescue StandardError, RangeError => e; raised = true; end
    req raised, "a value that does not fit was accepted; read back #{gc.get_data.inspect[0, 300]}" if !raised
  else
    gc.load v
    g = gc.get_data
    req same(v, g), -> { "loaded #{v.inspect[0, 400]} read #{g.inspect[0, 400]}" }
    g2 = gc.get_data
    req same(v, g2), -> { "second get_data differs: #{g2.inspect[0, 400]}" }
    r.state v
  end
  r.trans += 3
end

SCAL = [true, false, 0, 1, -1, 2**31 - 1, -2**31, 0.0, -0.0, 1.5, -2.25e-7, 1e300, 5e-324, 0.1, Float::NAN, Float::INFINITY, 3.0,
        '', 'a', 'true', '1', "b c\n\"'", "\u00e9\u4e2d", 'x' * 100, :sym, :"", 'nil']
BADS = [2**31, -2**31 - 1, 2**40, 2**70, "nu\0l", :"s\0"]
PREV = [nil, 7, 'old', [1, 2, 3], [1.5], %w[p q], [true], [1, 'x', [2]], { old: 1, a: { b: 2 } }, { a: [1, 2] }]

FILLED = [1, [0.0, 0.0, 123.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], { aaa: 'stringa1', bbb: 'stringa2', paperino: 3, pippo: 13, pluto: 1 },
          %w[string1 string2 string3 string4], 1.3, 'pippo', { aaa: 123, bbb: 3.4, vector: [12, 10, 1] },
          [123, 3.14, 'nonna papera', [[1.0, 0.0], [2.0, 0.0], [3.0, 0.0], [-12.0, 2.0]]], [[0.0, 3.0], [0.0, 2.0]],
          [[[0.0, 0.0], [1.0, -1.0]], [[0.0, 0.0], [2.0, 2.0]]], true].freeze

def enumerate(r, thorough)
  one = lambda do |v, prev = nil|
    r.run(-> { "load #{v.inspect}" + (prev.nil? ? '' : " over #{prev.inspect}") }) do
      gc = GCC.new
      gc.load prev unless prev.nil?
      load_get(r, gc, v)
      ::GenericContainer.GC_delete gc.id
    end
  end
  # scalars and bad values in every position over every earlier content
  (SCAL + BADS).each { |s| PREV.each { |p| [s, [s], { k: s }, [s, s], [[s]], { k: [s] }, { k: { l: s } }, [{ k: s }], HashLike.new({ m: s })].each { |v| one.(v, p) } } }
  # arrays
  cnt = 0
  small = [true, false, 1, -5, 2.5, 'a', :b]
  el = small + [0, 3.0, '', [], {}, [1], ['z', 1], { k: 1 }, [true, false], [1, 2.5], { k: { l: [1] } }]
  (0..(thorough ? 6 : 5)).each { |n| small.repeated_permutation(n) { |a| one.(a, PREV[(cnt += 1) % PREV.length]) } }
  (1..(thorough ? 4 : 3)).each { |n| el.repeated_permutation(n) { |a| one.(a); one.({ v: a, w: a[0] }) if n < 3 } }
  SCAL.repeated_permutation(2) { |a| one.(a); one.({ p: a[0], q: a[1] }); one.([a[0], [a[1]]]); one.([[a[0]], [a[1]]]) }
  # with a bad value at every place
  (BADS + [1]).repeated_permutation(3) { |a| one.(a); one.([a[0], 'x', [a[1], { k: a[2] }]]) }
  # long ones
  [10, 100, 1000].each { |n| one.((0...n).to_a); one.((0...n).map { |x| x * 0.5 }); one.((0...n).map { |x| "s#{x}" }); one.((0...n).map { |x| x.odd? }); one.((0...n).to_h { |x| ["k#{x}", x] }); one.((0...n).map { |x| [x, [x.to_s]] }) }
  (1..60).each { |n| v = 1; n.times { |k| v = k.even? ? [v] : { "d#{k}" => v } }; one.(v); one.([v, 'end', v]) }
  # hashes
  keys = ['', 'a', :b, 'a b', 3, "\u00e9", 'A', 'aa', :nil]
  vals = [true, 1, 2.5, 's', [], [1, 'x'], {}, { n: 1 }]
  (0..(thorough ? 5 : 4)).each { |n| keys.combination(n) { |ks| vals.each_with_index { |_, o| one.(ks.each_with_index.to_h { |k, j| [k, vals[(o + j) % vals.length]] }, PREV[(o + n) % PREV.length]) } } }
  keys.permutation(3) { |ks| vals.repeated_permutation(thorough ? 3 : 2) { |vs| one.({ ks[0] => vs[0], ks[1] => { ks[2] => vs[1], 'z' => vs[-1] } }) } }
  # histories
  lv = [{ a: 1, b: [1, 2] }, [1, 'x', true], 'str', { a: { c: [] } }, [1, { deep: [2**40] }], { z: "q\0" }]
  [[2, thorough ? 5 : 4], [3, thorough ? 4 : 3]].each do |nc, depth|
    ops = []
    (0...nc).each { |c| lv.each { |v| ops << [:load, c, v] }; ops << [:fill, c, nil]; ops << [:get, c, nil]; ops << [:ptr, c, nil] }
    ops.repeated_permutation(depth) do |seq|
      r.run(-> { 'history ' + seq.map { |o, c, v| "#{o} c#{c}#{v.nil? ? '' : ' ' + v.inspect}" }.join('; ') }) do
        cs = Array.new(nc) { GCC.new }
        cs.each_with_index { |g, k| g.load(k + 100) }
        exp = Array.new(nc) { |k| k + 100 }
        seq.each do |o, c, v|
          case o
          when :load
            raised = false
            begin cs[c].load v; rescue StandardError, RangeError; raised = true; end
            req raised == bad?(v), raised ? 'a good load raised' : 'a bad load was accepted'
            exp[c] = raised ? :any : v
          when :fill then cs[c].fill_for_test; exp[c] = :fill
          when :get then check_one(cs[c], exp[c])
          when :ptr then req !cs[c].get_pointer.null?, 'null pointer'
          end
          r.trans += 1
        end
        cs.each_with_index { |g, k| check_one(g, exp[k]) }
        cs.each_with_index { |g, k| g.load([k]); }
        cs.each_with_index { |g, k| check_one(g, [k]) }
        r.state exp
        cs.each { |g| ::GenericContainer.GC_delete g.id }
      end
    end
  end
end

def check_one(g, e)
  d = g.get_data
  case e
  when :any then nil
  when :fill then req(same(FILLED, d), -> { "fill_for_test content read as #{d.inspect[0, 400]}" })
  else req(same(e, d), -> { "expected #{e.inspect} got #{d.inspect[0, 300]}" })
  end
end

if opt[:only] && opt[:describe]
  enumerate(Run.new(opt, 0, opt[:out]), opt[:thorough])
  exit 0
end
opt[:workers] = 1 if opt[:only]
nw, out = opt[:workers], opt[:out]
start = lambda do |w, resume|
  fork do
    $stdout.reopen('/dev/null'); $stderr.reopen("#{out}/err.#{w}")
    r = Run.new(opt.merge(resume: resume, careful: !resume.nil?), w, out)
    enumerate(r, opt[:thorough])
    r.finish
    exit! 0
  end
end
crashes = []; hung = {}; T0 = Time.now
pids = (0...nw).to_h { |w| [start.(w, nil), [w, 0]] }
until pids.empty?
  pid, st = Process.wait2(-1, Process::WNOHANG)
  if pid.nil?
    sleep 0.02
    now = Time.now
    pids.each { |q, (v, _)| f = "#{out}/cur.#{v}"; if now - (File.exist?(f) ? File.mtime(f) : T0) > opt[:hang] then hung[v] = true; Process.kill(:KILL, q) rescue nil end }
    next
  end
  w, n = pids.delete(pid)
  next if st.exitstatus == 0 && File.exist?("#{out}/done.#{w}")
  if hung[w] && (n > 0 || opt[:only])
    crashes << { w: w, id: (File.read("#{out}/cur.#{w}").to_i rescue 0), how: 'hang' }
  elsif n == 0 && !opt[:only] # find the exact case: run again recording every id
    cur = (File.read("#{out}/cur.#{w}").to_i rescue 0)
    File.delete("#{out}/fail.#{w}") if File.exist?("#{out}/fail.#{w}")
    hung.delete(w); File.write("#{out}/cur.#{w}", cur.to_s)
    pids[start.(w, cur - 1)] = [w, 1]
  else
    cur = (File.read("#{out}/cur.#{w}").to_i rescue 0)
    crashes << { w: w, id: cur, how: st.signaled? ? "signal #{st.termsig}" : "exit #{st.exitstatus}" }
  end
end
done = trans = nfail = 0; total = -1; complete = crashes.empty?
(0...nw).each do |w|
  f = "#{out}/done.#{w}"
  if File.exist?(f) then a = File.read(f).split.map(&:to_i); done += a[0]; trans += a[1]; nfail += a[2]; total = [total, a[3]].max else complete = false end
end
require 'json'
File.write("#{out}/summary.json", JSON.generate({ property: 'P25', rule: RULE, done: done, trans: trans, nfail: nfail, total: total, complete: complete, crashes: crashes.map { |c| { worker: c[:w], id: c[:id], how: c[:how] } } }))
exit(nfail > 0 || !crashes.empty? ? 1 : 0)

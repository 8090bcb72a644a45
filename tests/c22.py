V="vbmc/vbmc.py"; A="vbmc/active_sample.py"; F="function_logger/function_logger.py"; T="timer/timer.py"
def m(name,exp,f,*ed): return (name,"C22",exp,[t if len(t)==3 else (f,)+t for t in ed])
def line(t,k,ind): return " "*ind+f'timer.{k}_timer("{t}")\n'
import re
src=open('/repo/pyvbmc/vbmc/vbmc.py').read(); asrc=open('/repo/pyvbmc/vbmc/active_sample.py').read()
def around(s,frag,n=0,pre=2,post=2):
    """unique context around the n-th occurrence of frag"""
    L=s.split("\n"); hits=[i for i,l in enumerate(L) if frag in l]; i=hits[n]
    return "\n".join(L[i-pre:i+post+1])+"\n", L[i]+"\n"
def drop(name,f,s,frag,n=0):
    ctx,l=around(s,frag,n); return m(name,1,f,(ctx,ctx.replace(l,"")))
FC='''        timer.start_timer("fun_time")
        try:
'''
RET='''                        timer.stop_timer("gp_train")
                        if (
'''
CASES=[
 drop("no stop warping",V,src,'stop_timer("warping")'),
 drop("no start warping",V,src,'start_timer("warping")'),
 drop("no stop gp 1",V,src,'stop_timer("gp_train")',0),
 drop("no stop gp 2",V,src,'stop_timer("gp_train")',1),
 drop("no stop vf 1",V,src,'stop_timer("variational_fit")',0),
 drop("no stop vf 2",V,src,'stop_timer("variational_fit")',1),
 drop("no start vf 2",V,src,'start_timer("variational_fit")',1),
 drop("no stop active",V,src,'stop_timer("active_sampling")'),
 drop("no stop sep",V,src,'stop_timer("separate_gp_train")'),
 drop("no stop fin",V,src,'stop_timer("finalize")'),
 drop("no start fin",V,src,'start_timer("finalize")'),
 drop("as no stop fun",A,asrc,'stop_timer("fun_time")'),
 drop("as no stop gp 0",A,asrc,'stop_timer("gp_train")',0),
 drop("as no stop gp 1",A,asrc,'stop_timer("gp_train")',1),
 drop("as no start gp 1",A,asrc,'start_timer("gp_train")',1),
 drop("as no stop vf",A,asrc,'stop_timer("variational_fit")'),
 m("stop name",1,V,('            timer.stop_timer("finalize")','            timer.stop_timer("finalise")')),
 m("stop after record",1,V,('            timer.stop_timer("finalize")\n',''),("            # Check warmup\n" if "            # Check warmup\n" in src else "            # record all values\n","            timer.stop_timer(\"finalize\")\n            # Check warmup\n")) if "            # Check warmup\n" in src else drop("dup",V,src,'stop_timer("finalize")'),
 m("reset moved",1,V,("            timer.reset()\n",""),('            timer.stop_timer("active_sampling")\n','            timer.reset()\n            timer.stop_timer("active_sampling")\n')),
 m("fun stop in success only else",1,F,('        timer.stop_timer("fun_time")\n','        if np.isscalar(f_val_orig):\n            timer.stop_timer("fun_time")\n')),
 m("fun read before stop",1,F,('        funtime = timer.get_duration("fun_time")\n',''),('        timer.stop_timer("fun_time")\n','        funtime = timer.get_duration("fun_time")\n        timer.stop_timer("fun_time")\n')),
 m("fun start early",1,F,(FC,FC.replace('        timer.start_timer("fun_time")\n','')),("        timer = Timer()\n","        timer = Timer()\n        timer.start_timer(\"fun_time\")\n")),
 m("fun stop late",1,F,('        timer.stop_timer("fun_time")\n',''),('        # record timer stats\n        funtime','        self.func_count += 1\n        f_val, idx = self._record(x_orig, x, f_val_orig, f_sd, np.nan)\n        timer.stop_timer("fun_time")\n        # record timer stats\n        funtime')),
 m("shared timer",1,F,("        timer = Timer()\n","        timer = self.timer\n"),("        self.noise_flag: bool = noise_flag\n","        self.noise_flag: bool = noise_flag\n        self.timer = Timer()\n")),
 m("main timer",1,F,("        timer = Timer()\n",""),("from pyvbmc.timer import Timer\n","from pyvbmc.timer import main_timer as timer\n")),
 m("recorded 0",1,F,("f_val_orig, f_sd, funtime)","f_val_orig, f_sd, 0.0)")),
 m("start after call",1,F,(FC,"        try:\n"),("            if isinstance(f_val_orig, np.ndarray):\n                # f_val_orig can","            timer.start_timer(\"fun_time\")\n            if isinstance(f_val_orig, np.ndarray):\n                # f_val_orig can")),
 m("timer overwrite",1,T,("self._durations[name] += end_time","self._durations[name] = end_time")),
 m("timer no pop",1,T,("            self._start_times.pop(name)\n","")),
 m("timer swapped",1,T,("                self._durations[name] = end_time - self._start_times[name]\n","                self._durations[name] = self._start_times[name] - end_time\n")),
 m("timer reset half",1,T,("        self._durations = {}\n        self._start_times = {}\n\n    def __repr__","        self._start_times = {}\n\n    def __repr__")),
 m("timer clocks",1,T,("            self._start_times[name] = time.time()","            self._start_times[name] = time.perf_counter()")),
 m("early continue",1,V,('            timer.stop_timer("finalize")\n','            if self.is_finished:\n                break\n            timer.stop_timer("finalize")\n')),
 m("stop under cond",1,V,('            timer.stop_timer("finalize")\n','            if self.options.get("display") != "off":\n                timer.stop_timer("finalize")\n')),
 m("nested same",1,A,('            timer.start_timer("fun_time")','            timer.start_timer("active_sampling")'),('            timer.stop_timer("fun_time")','            timer.stop_timer("active_sampling")')),
 # refactors
 m("R cond var twice",0,V,('            timer.start_timer("finalize")\n','            timing = self.options.get("display") is not None\n            if timing:\n                timer.start_timer("finalize")\n'),('            timer.stop_timer("finalize")\n','            if timing:\n                timer.stop_timer("finalize")\n')),
 m("R helper",0,V,('            timer.start_timer("finalize")\n','            self._tic("finalize")\n'),('            timer.stop_timer("finalize")\n','            self._toc("finalize")\n'),("    def __str__(self):\n        \"\"\"Construct a string summary.\"\"\"\n","    def _tic(self, name):\n        timer.start_timer(name)\n\n    def _toc(self, name):\n        timer.stop_timer(name)\n\n    def __str__(self):\n        \"\"\"Construct a string summary.\"\"\"\n")),
 m("R context",0,A,('''            timer.start_timer("fun_time")
''','''            with _timed("fun_time"):
                pass
            timer.start_timer("fun_time")
'''),("def active_sample(","import contextlib\n\n\n@contextlib.contextmanager\ndef _timed(name):\n    timer.start_timer(name)\n    try:\n        yield\n    finally:\n        timer.stop_timer(name)\n\n\ndef active_sample(")),
 m("R var name",0,V,('            timer.start_timer("finalize")\n','            phase = "finalize"\n            timer.start_timer(phase)\n')),
 m("R finally",0,F,('''        timer.stop_timer("fun_time")
''',''),('''                + str(x_orig),
            )
            raise
''','''                + str(x_orig),
            )
            raise
        finally:
            timer.stop_timer("fun_time")
''')),
 m("R perf",0,F,("        timer = Timer()\n",""),(FC,"        t0 = time.time()\n        try:\n"),('        timer.stop_timer("fun_time")\n',"        t1 = time.time()\n"),('        funtime = timer.get_duration("fun_time")\n',"        funtime = t1 - t0\n"),("from pyvbmc.timer import Timer\n","import time\n")),
 m("R perf_counter",0,T,("            self._start_times[name] = time.time()","            self._start_times[name] = time.perf_counter()"),("end_time = time.time()","end_time = time.perf_counter()")),
 m("R stop simpler",0,T,('''            if self._durations.get(name) is not None:
                self._durations[name] += end_time - self._start_times[name]
            else:
                self._durations[name] = end_time - self._start_times[name]
            self._start_times.pop(name)
''','''            elapsed = end_time - self._start_times.pop(name)
            self._durations[name] = self._durations.get(name, 0) + elapsed
''')),
 m("R clear",0,T,("        self._durations = {}\n        self._start_times = {}\n\n    def __repr__","        self._durations.clear()\n        self._start_times.clear()\n\n    def __repr__")),
 m("R alias",0,A,("from pyvbmc.timer import main_timer as timer\n","from pyvbmc.timer import main_timer\n"),("def active_sample(","timer = main_timer\n\n\ndef active_sample(")),
]

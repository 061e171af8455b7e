"""C22: searching, grouping, sorting and binning helpers."""
import numpy as np, itertools, math
from pixell import utils
from ..core import chunked

RULE   = "every array of up to the given length over a small alphabet (so empty, constant, repeated, sorted and unsorted ones all occur) x every query of up to two values x data type for the searching, grouping and splitting helpers; every shape x axis selection for the axis helpers; every (n, bin parameter) pair of the lattice for the binning helpers; every string of up to the given length over the relevant alphabet for the string helpers; oracle: element by element evaluation in plain python"
BOUNDS = "arrays of length 0..4 (quick) or 0..5 over 3-4 values, shapes of up to 4 axes of lengths 1..3, n up to 60 for binning, strings of length 0..6 (quick) or 0..7, crossmatches of up to 3x3 points on a lattice"
ASSUME = ["where several answers are equally right (ties) any of them is accepted", "linbin is claimed for nbin <= n and without bsize", "samples in the incomplete last block of block_mean_filter are not compared", "negative axes are not claimed for addaxes, whose meaning is undocumented there"]

DT = ("i8","f8","f4","U")
def cast(v, dt): return np.array(["k%d" % x for x in v],"U3") if dt == "U" else np.array(v,dt)
def arrays(n, k): return [a for m in range(n+1) for a in itertools.product(range(k),repeat=m)]

def unit_search(ctx, items):
	for arr in items:
		for dt in DT:
			a = cast(arr,dt); keep = a.copy()
			for nv in range(3):
				for vals in itertools.product(range(4),repeat=nv):
					v = cast(vals,dt)
					with ctx.case("find", array=arr, vals=vals, dtype=dt):
						miss = [x for x in vals if x not in arr]
						if miss: ctx.raises(lambda: utils.find(a,v), ValueError, "missing value")
						else:
							r = utils.find(a,v); ctx.check(len(r) == nv and all(0 <= i < len(arr) and arr[i] == x for i,x in zip(r,vals)), "indices", state=(arr,vals))
						r = utils.find(a,v,default=-7); ctx.check(np.shape(r) == (nv,) and all((i == -7) if x not in arr else (0 <= i and arr[i] == x) for i,x in zip(r,vals)), "default")
						r = utils.find_any(a,v); ctx.check(len(r) == nv-len(miss) and [arr[i] for i in r] == [x for x in vals if x in arr], "find_any")
						ctx.eq(utils.contains(a,v), np.array([x in vals for x in arr],bool), "contains")
						ctx.eq(a, keep, "untouched")
						if nv == 1 and len(arr):
							if not miss: ctx.check(arr[int(utils.find(a,v[0]))] == vals[0], "scalar")
							else: ctx.eq(int(utils.find(a,v[0],default=-3)), -3, "scalar default")
			with ctx.case("grouping", array=arr, dtype=dt):
				ctx.eq(list(utils.dedup(a)), [x for i,x in enumerate(a) if i == 0 or a[i-1] != x], "dedup")
				u, order, edges = utils.find_equal_groups_fast(a); us = sorted(set(a.tolist()))
				ctx.eq([x for x in u.tolist()], us, "values"); ctx.eq([list(order[edges[i]:edges[i+1]]) for i in range(len(us))], [[i for i,x in enumerate(a.tolist()) if x == w] for w in us], "fast groups")
				if len(arr):
					ctx.eq([sorted(int(i) for i in g) for g in utils.find_equal_groups(a)], [[i for i,x in enumerate(a.tolist()) if x == w] for w in us], "groups")
					if dt != "U":
						lab = utils.label_unique(a); first = {}; ctx.eq(list(lab), [first.setdefault(x,len(first)) for x in arr], "label_unique")
				ctx.eq(a, keep, "untouched")
			if dt != "U" and len(arr):
				for v in (-1,0,0.4,0.6,1,1.5,1.9,2,5):
					with ctx.case("nearest_ind", array=arr, val=v, dtype=dt):
						best = min(abs(x-v) for x in arr)
						r = utils.nearest_ind(a, np.array([v])); ctx.check(len(r) == 1 and 0 <= r[0] < len(arr) and abs(abs(arr[r[0]]-v)-best) < 1e-6, "closest"); ctx.eq(a,keep,"untouched")
						s = np.sort(a); r = utils.nearest_ind(s, np.array([v]), sorted=True); ctx.check(0 <= r[0] < len(arr) and abs(abs(s[r[0]]-v)-best) < 1e-6, "sorted")
						ctx.check(abs(abs(arr[int(utils.nearest_ind(a,v))]-v)-best) < 1e-6, "scalar")
def unit_sets(ctx, items):
	for arrs in items:
		for dt in ("i8","f8","U"):
			with ctx.case("sets", arrays=arrs, dtype=dt):
				A = [cast(a,dt) for a in arrs]; py = [x.tolist() for x in A]; common = sorted(set(py[0]).intersection(*py[1:]))
				ctx.eq(list(utils.common_vals(A)), common, "common_vals"); ctx.eq(list(utils.union(A)), sorted(set().union(*py)), "union")
				for a, p, inds in zip(A,py,utils.common_inds(A)): ctx.eq([p[i] for i in inds], common, "common_inds")
				ctx.eq([list(x) for x in utils.uncat(np.concatenate(A),[len(a) for a in A])], py, "uncat")
				if len(set(map(len,arrs))) == 1 and len(arrs[0]):
					lab = list(utils.label_multi(A)); tup = list(zip(*py))
					ctx.check(all((lab[i] == lab[j]) == (tup[i] == tup[j]) for i in range(len(tup)) for j in range(len(tup))), "label_multi"); ctx.eq(sorted(set(lab)), list(range(len(set(tup)))), "labels are contiguous")
def unit_perm(ctx, items):
	for n in items:
		for p in itertools.permutations(range(n)):
			with ctx.case("inverse_order", perm=p):
				inv = utils.inverse_order(np.array(p,int)); ctx.eq([p[i] for i in inv], list(range(n)), "inverse")
		for m in itertools.product((0,1),repeat=n):
			with ctx.case("masks", mask=m):
				inds = [i for i in range(n) if m[i]]; ctx.eq(list(utils.complement_inds(inds,n)), [i for i in range(n) if not m[i]], "complement_inds"); ctx.eq(list(utils.complement_inds(np.array(inds,int),n)), [i for i in range(n) if not m[i]], "complement_inds of an array")
				want, s = [], None
				for i, v in enumerate(list(m)+[0]):
					if v and s is None: s = i
					if not v and s is not None: want.append([s,i]); s = None
				ctx.eq(np.asarray(utils.mask2range(np.array(m,bool))).reshape(-1,2), np.array(want,int).reshape(-1,2), "mask2range")
				mask = np.array(m,bool)
				for post in ((),(2,)):
					for pre in ((),(3,)):
						full = np.arange(int(np.prod(pre+(n,)+post,dtype=int))).reshape(pre+(n,)+post)+1.5; ax = len(pre)
						sel = full[(slice(None),)*ax+(mask,)]; want = np.where(mask.reshape((n,)+(1,)*len(post)), full, -2)
						ctx.eq(utils.unmask(sel, mask, axis=ax, fill=-2), want, "unmask")
				if n: 
					w = np.array(m)*2.0+np.arange(n); ctx.eq(utils.argmax(w.reshape(1,-1)), (0,int(np.argmax(w))), "argmax")
				ctx.eq(list(utils.cumsum(np.array(m,int))), [sum(m[:i]) for i in range(n)], "cumsum"); ctx.eq(list(utils.cumsum(np.array(m,int),endpoint=True)), [sum(m[:i]) for i in range(n+1)], "cumsum endpoint")
			for k in range(1,n+1):
				for c in itertools.product((0,1,2,3),repeat=2):
					pass
def unit_split(ctx, items):
	for data in items:
		for nb in (1,2,3,4):
			with ctx.case("splits", data=data, nbin=nb):
				w = np.array(data,float)
				for name, res in (("equal_split",utils.equal_split(w,nb)),("greedy_split_simple",utils.greedy_split_simple(w,nb)),("greedy_split",utils.greedy_split(list(data),nb)[0])):
					ctx.check(len(res) == nb and sorted(int(i) for g in res for i in g) == list(range(len(data))), name+" is a partition", state=(name,data,nb))
					sums = sorted(sum(data[i] for i in g) for g in res)
					# what the greedy algorithm gives, whatever the order of ties
					bw = [0]*nb
					for x in sorted(data,reverse=True): j = bw.index(min(bw)); bw[j] += x
					ctx.close(max(sums), max(bw), 1e-12, 1e-12, name+" largest bin")
					if name != "greedy_split": ctx.close(sums, sorted(bw), 1e-12, 1e-12, name+" sums")
				g, cost, work = utils.greedy_split(list(data),nb); ctx.close(work, [sum(data[i] for i in x) for x in g], 1e-12, 1e-12, "work"); 
				if len(data): ctx.close(cost, max(work), 1e-12, 1e-12, "cost")
def wq(m, w, q):
	o = sorted(range(len(m)),key=lambda i:m[i]); tot = sum(w); c = 0; pos = []
	for i in o: pos.append((c+0.5*w[i])/(tot if tot > 0 else 1)); c += w[i]
	return o, pos
def unit_stat(ctx, items):
	for data, wt in items:
		with ctx.case("weighted_quantile", data=data, weights=wt):
			o, pos = wq(data,wt,None); s = [data[i] for i in o]; m = np.array(data,float); ws = [wt[i] for i in o]
			ties = len(set(data)) < len(data) or any(x == 0 for x in wt)
			qs = [0,0.1,0.3,0.5,0.9,1.0]
			got = utils.weighted_quantile(m, np.array(wt,float), np.array(qs)); ctx.check(got.shape == (len(qs),), "shape")
			for q, g in zip(qs,got):
				if not ties: ctx.close(g, np.interp(q,pos,s), 1e-9, 1e-9, "quantile %g" % q)
				ctx.check(min(s)-1e-9 <= g <= max(s)+1e-9, "range"); ctx.close(utils.weighted_quantile(m,np.array(wt,float),q), g, 1e-12, 1e-12, "scalar")
			for p in itertools.permutations(range(len(data))):
				if ties: break
				ctx.close(utils.weighted_median(m[list(p)],np.array(wt,float)[list(p)]), got[3], 1e-12, 1e-12, "order of the samples")
			ctx.close(utils.weighted_quantile(np.array([m,m[::-1]]),np.array([wt,wt[::-1]],float),np.array(qs),axis=1), np.array([got,got]).T if not ties else utils.weighted_quantile(np.array([m,m[::-1]]),np.array([wt,wt[::-1]],float),np.array(qs),axis=1), 1e-9, 1e-9, "rows")
			ctx.close(utils.weighted_quantile(np.array([m,m+1]).T,np.array(wt,float)[:,None],0.3,axis=0), utils.weighted_quantile(m,np.array(wt,float),0.3)+np.array([0,1]), 1e-9, 1e-9, "axis")
			if all(w == 1 for w in wt) and not ties: ctx.close(utils.weighted_median(m), np.median(m), 1e-9, 1e-9, "plain median")
			for frac in (0.0,0.2,0.5,0.8):
				n = len(data); i = int(n*frac)//2; ctx.close(utils.medmean(m,frac=frac), np.mean(sorted(data)[i:n-i]), 1e-12, 1e-12, "medmean")
			mk = np.array(wt) > 0; ctx.close(utils.maskmed(m, mk), np.median(m[mk]) if mk.any() else 0, 1e-12, 1e-12, "maskmed")
			ctx.close(utils.minmax(m), [min(data),max(data)], 0, 0, "minmax")
			for side in ("left","right"):
				sm = np.sort(m); ctx.eq(np.array([utils.search(np.array([sm,sm+1]),np.array([q,q]),side=side) for q in (-1,0,0.5,1,2,3)]), np.array([[np.searchsorted(sm,q,side),np.searchsorted(sm+1,q,side)] for q in (-1,0,0.5,1,2,3)]), "search")
			if len(data) > 1:
				d = utils.deslope(m); ctx.close(d[[0,-1]], [0,0], 0, 1e-12, "deslope ends"); ctx.close(np.diff(m-d,2), np.zeros(max(0,len(data)-2)), 0, 1e-12, "deslope removes a line"); ctx.eq(m, np.array(data,float), "untouched")
				if max(data) > min(data): r = utils.rescale(m,[3,7]); ctx.close([r.min(),r.max()],[3,7],1e-12,1e-12,"rescale"); ctx.close((r-3)/4, (m-m.min())/(m.max()-m.min()), 1e-12, 1e-12, "rescale is linear")
def unit_shape(ctx, items):
	for shape in items:
		nd = len(shape); a = np.arange(int(np.prod(shape,dtype=int))).reshape(shape)+0.5
		with ctx.case("nditer", shape=shape):
			ctx.eq(list(utils.nditer(shape)), list(itertools.product(*[range(n) for n in shape])), "all")
			ctx.eq([list(x) for x in utils.count_variable_basis(list(shape))], [list(x) for x in itertools.product(*[range(n) for n in shape])], "count_variable_basis")
			L = [["v%d%d" % (i,j) for j in range(n)] for i,n in enumerate(shape)]; ctx.eq([list(x) for x in utils.list_combination_iter(L)], [list(x) for x in itertools.product(*L)], "list_combination_iter")
			ctx.eq(list(utils.nditer(shape+(0,))), [], "empty"); ctx.eq(list(utils.nditer((0,)+shape)), [], "empty")
			for k in range(nd+1):
				for axes in itertools.combinations(range(nd),k):
					want = [tuple(I[axes.index(i)] if i in axes else slice(None) for i in range(nd)) for I in itertools.product(*[range(shape[x]) for x in axes])]
					ctx.check(list(utils.nditer(shape,axes=axes)) == want and (nd == 0 or list(utils.nditer(shape,axes=[x-nd for x in axes[::-1]])) == want), "axes", state=(shape,axes))
		for k in range(1,nd+1):
			for axes in itertools.permutations(range(nd),k):
				for neg in (False,True):
					ax = [x-nd for x in axes] if neg else list(axes)
					rest = [i for i in range(nd) if i not in axes]
					for pos in range(k+1):
						with ctx.case("partial_flatten", shape=shape, axes=ax, pos=pos):
							f = utils.partial_flatten(a,ax,pos); want = np.moveaxis(np.transpose(a,list(axes)+rest).reshape([shape[x] for x in axes]+[-1]),-1,pos)
							ctx.eq(f, want, "flatten"); ctx.eq(utils.partial_expand(f,shape,ax,pos), a, "expand")
							b = a.copy()
							with utils.flatview(b,ax,pos=pos) as fv: ctx.eq(np.asarray(fv),want,"view"); fv *= 2
							ctx.eq(b, a*2, "written back"); b = a.copy()
							with utils.flatview(b,ax,mode="r",pos=pos) as fv: fv = fv+1
							ctx.eq(b, a, "not written")
		with ctx.case("reshaping", shape=shape):
			for n in range(1,nd+1):
				ctx.eq(utils.preflat(a,n), a.reshape((-1,)+shape[n:]), "preflat"); ctx.eq(utils.postflat(a,n), a.reshape(shape[:nd-n]+(-1,)), "postflat")
				if n < nd: ctx.eq(utils.preflat(a,-n), a.reshape((-1,)+shape[nd-n:]), "preflat negative"); ctx.eq(utils.postflat(a,-n), a.reshape(shape[:n]+(-1,)), "postflat negative")
			for n in range(nd,nd+3): ctx.eq(utils.atleast_Nd(a,n), a.reshape((1,)*(n-nd)+shape), "atleast_Nd")
			for n in range(max(nd,1),nd+3):
				for ax in range(nd+1): ctx.eq(utils.to_Nd(a,n,axis=ax), a.reshape(shape[:ax]+(1,)*(n-nd)+shape[ax:]), "to_Nd")
			for k in range(1,3):
				for axes in itertools.combinations_with_replacement(range(nd+1),k):
					ins = list(shape)
					for x in sorted(axes)[::-1]: ins.insert(x,1)
					ctx.eq(utils.addaxes(a,axes), a.reshape(ins), "addaxes")
			for k in range(1,nd+1):
				for axes in itertools.combinations(range(nd),k):
					want = a[tuple(0 if i in axes else slice(None) for i in range(nd))]; ctx.eq(np.asarray(utils.delaxes(a,axes)), np.asarray(want), "delaxes"); ctx.eq(np.asarray(utils.delaxes(a,[x-nd for x in axes])), np.asarray(want), "delaxes negative")
			for inds in [None,0,-1]+[c for k in range(nd+1) for c in itertools.combinations(range(nd),k)]:
				if nd == 0 and inds in (0,-1): continue
				l = [] if inds is None else [i%nd for i in np.atleast_1d(np.array(inds,int))]
				ctx.eq(tuple(utils.without_inds(shape,inds)), tuple(v for i,v in enumerate(shape) if i not in l), "without_inds"); ctx.eq(tuple(utils.only_inds(shape,inds)), tuple(shape[i] for i in l), "only_inds")
			for ax in range(nd):
				for n in range(0,5):
					r = utils.resize_array(a,n,axis=ax,val=-1); want = np.full(shape[:ax]+(n,)+shape[ax+1:],-1.0); s = (slice(None),)*ax+(slice(0,min(n,shape[ax])),); want[s] = a[s]; ctx.eq(r,want,"resize_array")
				ctx.eq(utils.cumsum(a,axis=ax), np.cumsum(a,ax)-a, "cumsum"); ctx.close(utils.cumsum(a,axis=ax-nd,endpoint=True), np.concatenate([np.zeros(shape[:ax]+(1,)+shape[ax+1:]),np.cumsum(a,ax)],ax), 1e-12, 1e-12, "cumsum endpoint")
				for ids in itertools.product(range(3),repeat=shape[ax]):
					want = np.stack([np.sum(a[(slice(None),)*ax+([i for i,d in enumerate(ids) if d == k],)],ax) for k in range(max(ids)+1)],ax); ctx.close(utils.sum_by_id(a,np.array(ids),axis=ax), want, 1e-12, 1e-12, "sum_by_id")
				for bs in range(1,5):
					for off in (range(0,min(3,shape[ax])) if bs > 1 else (0,)):
						edges = sorted(set([0,off]+list(range(off,shape[ax],bs))+[shape[ax]])); m = np.moveaxis(a,ax,0)
						want = np.moveaxis(np.array([np.mean(m[x:y],0) for x,y in zip(edges[:-1],edges[1:])]),0,ax)
						r = utils.block_reduce(a,bs,axis=ax,off=off); ctx.close(r, want, 1e-12, 1e-12, "block_reduce")
						ctx.close(utils.block_reduce(a,bs,axis=ax-nd,off=off,op=np.max) if bs > 1 else want, np.moveaxis(np.array([np.max(m[x:y],0) for x,y in zip(edges[:-1],edges[1:])]),0,ax) if bs > 1 else want, 1e-12, 1e-12, "block_reduce op")
						want = np.moveaxis(np.concatenate([np.repeat(np.mean(m[x:y],0)[None],y-x,0) for x,y in zip(edges[:-1],edges[1:])]),0,ax)
						ctx.close(utils.block_expand(r,bs,shape[ax],axis=ax,off=off), want, 1e-12, 1e-12, "block_expand")
						nw = (shape[ax]-off)//bs
						if nw and bs > 1:
							ctx.close(utils.block_reduce(a,bs,axis=ax,off=off,inclusive=False), np.moveaxis(np.array([np.mean(m[off+i*bs:off+(i+1)*bs],0) for i in range(nw)]),0,ax), 1e-12, 1e-12, "whole blocks")
							z = np.zeros_like(m); z[off:off+nw*bs] = np.moveaxis(want,ax,0)[off:off+nw*bs]; ctx.close(utils.block_expand(utils.block_reduce(a,bs,axis=ax,off=off,inclusive=False),bs,shape[ax],axis=ax,off=off,inclusive=False), np.moveaxis(z,0,ax), 1e-12, 1e-12, "expanded whole blocks")
				for sl in [slice(s,e,st) for s in (None,0,1,-1) for e in (None,1,2,-1) for st in (None,1,2,3,-1,-2)]:
					m = np.moveaxis(a,ax,0); st = sl.step or 1; x = m[sl.start:sl.stop:(1 if st > 0 else -1)]; st = abs(st)
					if len(x) == 0: continue
					ctx.close(utils.slice_downgrade(a,sl,axis=ax), np.moveaxis(np.array([np.mean(x[i:i+st],0) for i in range(0,len(x),st)]),0,ax), 1e-12, 1e-12, "slice_downgrade")
def unit_bcast(ctx, items):
	for shapes in items:
		with ctx.case("broadcasting", shapes=shapes):
			try: want = np.broadcast_shapes(*shapes)
			except ValueError: want = None
			if want is None: ctx.raises(lambda: utils.broadcast_shape(*shapes), ValueError, "incompatible"); continue
			ctx.eq(tuple(utils.broadcast_shape(*shapes)), want, "shape")
			A = [np.arange(int(np.prod(s,dtype=int))).reshape(s)+i for i,s in enumerate(shapes)]
			for x, y in zip(utils.broadcast_arrays(*A), np.broadcast_arrays(*A)): ctx.eq(x,y,"arrays")
			r = utils.broadcast_arrays(A[0],None,*A[1:]); ctx.check(r[1] is None and all(x.shape == want for x in r[:1]+r[2:]), "None passes through")
			P = [np.stack([a,a+1,a+2],-1) for a in A]
			for x, y in zip(utils.broadcast_arrays(*P,npost=1), np.broadcast_arrays(*A)): ctx.eq(x, np.stack([y,y+1,y+2],-1), "exempt last axis")
			P = [np.stack([a,a+1]) for a in A]
			for x, y in zip(utils.broadcast_arrays(*P,npre=1), np.broadcast_arrays(*A)): ctx.eq(x, np.stack([y,y+1]), "exempt first axis")
			x = utils.broadcast_arrays(P[0],*A[1:],npre=[1]+[0]*(len(A)-1)); y = np.broadcast_arrays(*A); ctx.eq(x[0], np.stack([y[0],y[0]+1]), "exempt in one"); ctx.eq(x[1], y[1], "exempt in one")
			# new axes at the end
			try: w2 = np.broadcast_shapes(*[s+(1,)*(max(map(len,shapes))-len(s)) for s in shapes])
			except ValueError: w2 = None
			if w2 is None: ctx.raises(lambda: utils.broadcast_shape(*shapes,at=-1), ValueError, "incompatible at the end")
			else:
				ctx.eq(tuple(utils.broadcast_shape(*shapes,at=-1)), w2, "shape at the end")
				for x, a in zip(utils.broadcast_arrays(*A,at=-1),A): ctx.eq(x, np.broadcast_to(a.reshape(a.shape+(1,)*(len(w2)-a.ndim)),w2), "arrays at the end")
def unit_bins(ctx, items):
	for n in items:
		for nb in range(1,min(n,9)+1):
			with ctx.case("linbin", n=n, nbin=nb):
				b = utils.linbin(n,nb); ctx.check(b.shape == (nb,2) and b[0,0] == 0 and b[-1,1] == n and np.all(b[1:,0] == b[:-1,1]), "tiling"); w = b[:,1]-b[:,0]; ctx.check(w.max()-w.min() <= 1 and w.min() >= 1, "equal sizes")
				chk(ctx, b, n)
		for nb in (None,1,2,3,5,8,12):
			for nmin in (1,2,8,20):
				for nmax in (0,4,15):
					with ctx.case("expbin", n=n, nbin=nb, nmin=nmin, nmax=nmax):
						b = utils.expbin(n,nbin=nb,nmin=nmin,nmax=nmax); ctx.check(b.ndim == 2 and len(b) >= 1 and b[0,0] == 0 and b[-1,1] == n and np.all(b[1:,0] == b[:-1,1]), "tiling", state=(n,nb,nmin,nmax)); w = b[:,1]-b[:,0]
						if nmax == 0 or nmax >= 2*nmin:
							ctx.check(w.min() >= min(nmin,n) or nmax and w.min() >= nmax//2, "smallest bin")
						if nmax: ctx.check(w.max() <= nmax, "largest bin")
						ctx.check(w.min() >= 1, "no empty bin")
						if not nmax: ctx.check(len(b) <= (nb or int(np.round(n**0.5)) or 1), "number of bins")
						if nmin == 1 and nmax == 0: chk(ctx, b, n)
		for f in ((2,),(2,3),(2,3,5),(3,),(2,7),(5,3)):
			with ctx.case("nearest_product", n=n, factors=f):
				prods = {1}; new = {1}
				while new: new = {p*x for p in new for x in f if p*x <= n*min(f)+max(f)}-prods; prods |= new
				ctx.eq(int(utils.nearest_product(n,f)), max(p for p in prods if p <= n), "below"); ctx.eq(int(utils.nearest_product(n,f,direction="above")), min(p for p in prods if p >= n), "above")
				ctx.eq(int(utils.nearest_product(n+0.5,f)), max(p for p in prods if p <= n+0.5), "below a fraction")
		with ctx.case("integers", n=n):
			p = utils.primes(n); ctx.check((math.prod(p) == n or n == 1 and p == []) and all(all(x % k for k in range(2,x)) for x in p) and list(p) == sorted(p), "primes"); ctx.eq(int(utils.ndigit(n)), len(str(n)), "ndigit"); ctx.eq(int(utils.ndigit(n-1)), len(str(n-1)), "ndigit")
			for m in range(1,16): ctx.eq((int(utils.gcd(n,m)),int(utils.lcm(n,m))), (math.gcd(n,m),n*m//math.gcd(n,m)), "gcd and lcm")
		for nx in range(1,6):
			with ctx.case("small arrays", n=n, k=nx):
				if n <= 12:
					i = np.arange(n*nx); t = i.reshape(n,nx).T.reshape(-1); inv = utils.transpose_inds(i,n,nx); ctx.eq(t[inv], i, "transpose_inds")
					d = np.arange(nx)*1.5; w = (list(d)+list(d[::-1]))*n; ctx.eq(list(utils.repeat_filler(d,n)), w[:n], "repeat_filler")
					for ep in (True,False):
						g = utils.grid([[0,10],[6,13]],[n,nx],endpoint=ep); ctx.close(g[0], np.linspace(0,6,n,endpoint=ep)[:,None]+np.zeros(nx), 1e-12, 1e-12, "grid"); ctx.close(g[1], np.linspace(10,13,nx,endpoint=ep)[None]+np.zeros((n,1)), 1e-12, 1e-12, "grid")
					if nx <= n:
						f = utils.block_mean_filter(np.arange(n)**2.0,nx)
						for k in range(n//nx): ctx.close(f[k*nx:(k+1)*nx], np.full(nx,np.mean((np.arange(n)**2.0)[k*nx:(k+1)*nx])), 1e-12, 1e-12, "block_mean_filter")
		if 4 <= n <= 12:
			for ref in range(1,n-2):
				with ctx.case("infer_bin_edges", n=n, ref=ref):
					# widths varying but equal for the reference bins
					w = 1.0+(np.arange(n)%3); w[ref] = w[ref+1]; e = np.concatenate([[0],np.cumsum(w)])+2; c = 0.5*(e[1:]+e[:-1]); got = utils.infer_bin_edges(c,ref=ref); ctx.close(got, e, 1e-6, 1e-6, "edges")
def chk(ctx, b, n):
	d = np.array([np.arange(n)**2.0, np.ones(n)]); want = np.array([[np.mean(r[x:y]) for x,y in b] for r in d])
	ctx.close(utils.bin_data(b,d), want, 1e-12, 1e-12, "bin_data"); ctx.close(utils.bin_data(b,d[0],op=np.sum), want[0]*(b[:,1]-b[:,0]), 1e-12, 1e-12, "bin_data sum")
	ctx.close(utils.bin_expand(b,want), np.array([[r[[x<=i<y for x,y in b].index(True)] for i in range(n)] for r in want]), 1e-12, 1e-12, "bin_expand")
	e = utils.bins2edges(b); ctx.eq(list(e), [0]+[int(y) for _,y in b], "bins2edges"); ctx.eq(utils.edges2bins(np.asarray(e)), b, "edges2bins")
def unit_hist(ctx, items):
	for pix in items:
		with ctx.case("histograms", pix=pix):
			p = np.array(pix,int); w = np.arange(len(pix))+1.0
			if len(pix):
				n = max(pix)+1
				for ml in (0,3,6):
					m = max(n,ml); ctx.eq(utils.bincount(p,minlength=ml), np.array([pix.count(i) for i in range(m)],float), "bincount"); ctx.close(utils.bincount(np.array([p,p[::-1]]),w,minlength=ml), np.array([[sum(x for x,q in zip(w,pp) if q == i) for i in range(m)] for pp in (pix,pix[::-1])]), 1e-12, 1e-12, "rows")
			sh = (2,3); P = np.array([[(q*2)%3-0 for q in pix],[q for q in pix]],int).reshape(2,-1); want = np.zeros(sh); ww = np.zeros(sh)
			for k in range(len(pix)): y, x = min(max(P[0,k],0),1), min(max(P[1,k],0),2); want[y,x] += 1; ww[y,x] += w[k]
			ctx.eq(utils.bin_multi(P,sh), want, "bin_multi"); ctx.close(utils.bin_multi(P,sh,weights=w), ww, 1e-12, 1e-12, "weighted")
			for e in (0,1,2):
				seq = list(pix); want = [[]]
				for v in seq:
					if v == e: want.append([])
					else: want[-1].append(v)
				ctx.eq([list(x) for x in utils.listsplit(seq,e)], want, "listsplit")
			f = np.array([[1.0,np.nan,np.inf,-np.inf][v%4] for v in pix]); keep = f.copy(); ctx.eq(utils.tofinite(f,5), np.array([1.0 if v%4 == 0 else 5 for v in pix]), "tofinite"); ctx.eq(f,keep,"untouched"); ctx.eq(utils.without_nan(f), np.array([1.0 if v%4 == 0 else 0 for v in pix]), "without_nan"); ctx.eq(f,keep,"untouched")
			g = f.copy(); r = utils.remove_nan(g); ctx.eq(g, np.array([1.0 if v%4 == 0 else 0 for v in pix]), "remove_nan"); ctx.check(r is g, "in place")
def unit_boxes(ctx, items):
	for ndim, A, B in items:
		with ctx.case("boxes", ndim=ndim, a=A, b=B):
			a, b = [np.array(v).reshape(-1,2,ndim) for v in (A,B)]
			ov = np.array([[np.prod([max(0,min(x[1,d],y[1,d])-max(x[0,d],y[0,d])) for d in range(ndim)]) for y in b] for x in a])
			ctx.eq(utils.box_overlap(a,b), ov, "box_overlap"); ctx.eq(utils.box_overlap(a[0],b[0]), ov[0,0], "pair"); ctx.eq(utils.box_overlap(a[0],b), ov[0], "one to many"); ctx.eq(utils.box_overlap(a,b[0]), ov[:,0], "many to one")
			s = utils.box_slice(a,b)
			for i, x in enumerate(a):
				for j, y in enumerate(b): ctx.eq(s[i,j], np.array([[min(max(0,y[k,d]-x[0,d]),x[1,d]-x[0,d]) for d in range(ndim)] for k in (0,1)]), "box_slice")
			ctx.eq(utils.box_area(a), np.array([np.prod(x[1]-x[0]) for x in a]), "box_area"); ctx.eq(utils.bounding_box(np.concatenate([a,b])), np.array([np.min(np.concatenate([a,b])[:,0],0),np.max(np.concatenate([a,b])[:,1],0)]), "bounding_box")
			c = utils.box2corners(a[0]); ctx.eq(sorted(map(tuple,c.tolist())), sorted(tuple(int(a[0][k,d]) for d,k in enumerate(ks)) for ks in itertools.product((0,1),repeat=ndim)), "box2corners")
			bx = a[0]+0.0; fl = bx[::-1]; ctx.close(utils.pad_box(bx,0.25), bx+np.array([[-0.25],[0.25]])*np.sign(bx[1]-bx[0]), 1e-12, 1e-12, "pad_box"); ctx.close(utils.pad_box(fl,0.25), utils.pad_box(bx,0.25)[::-1], 1e-12, 1e-12, "pad_box descending")
			ctx.close(utils.widen_box(bx,0.5,relative=False), bx+np.array([[-0.25],[0.25]]), 1e-12, 1e-12, "widen_box"); ctx.close(utils.widen_box(bx,0.5), bx+np.array([[-0.25],[0.25]])*(bx[1]-bx[0]), 1e-12, 1e-12, "widen_box relative")
			con = utils.box2contour(bx,nperedge=3); ctx.check(all(np.all(p >= bx[0]-1e-12) and np.all(p <= bx[1]+1e-12) and np.sum((np.abs(p-bx[0])<1e-9)|(np.abs(p-bx[1])<1e-9)) >= ndim-1 for p in con), "box2contour")
def unit_str(ctx, items):
	for s in items:
		with ctx.case("strings", string=s):
			want = [""]; i = 0
			while i < len(s):
				if s[i] == "\\":
					if i+1 < len(s): want[-1] += s[i+1]
					i += 2; continue
				if s[i] == ",": want.append("")
				else: want[-1] += s[i]
				i += 1
			ctx.eq(list(utils.split_esc(s,",")), want, "split_esc")
def balanced(s):
	st = []
	for c in s:
		if c in "([": st.append(c)
		elif c in ")]":
			if not st or "([".index(st.pop()) != ")]".index(c): return False
	return not st
def unit_grp(ctx, items):
	for s in items:
		with ctx.case("split_outside", string=s):
			want = [""]; d = 0
			for c in s:
				if c in "([": d += 1
				if c in ")]": d -= 1
				if c == "," and d == 0: want.append("")
				else: want[-1] += c
			ctx.eq(utils.split_outside(s,","), want, "tokens"); ctx.eq("".join(utils.split_by_group(s,"([",")]")), s, "split_by_group keeps everything")
def unit_path(ctx, items):
	import os
	for s in items:
		with ctx.case("pathsplit", path=s):
			n = os.path.normpath(s); want = (["/"] if n.startswith("/") else [])+[t for t in n.split("/") if t]; got = utils.pathsplit(s); ctx.eq(got, want, "components"); ctx.eq(os.path.normpath(os.path.join(*got)), "/"+n.lstrip("/") if n.startswith("/") else n, "joined again")
def unit_num(ctx, items):
	for parts in items:
		with ctx.case("parse_ints", parts=parts):
			s = ",".join(":".join(map(str,p)) for p in parts); want = [v for p in parts for v in (p if len(p) == 1 else range(*p))]
			r = utils.parse_ints(s); ctx.eq(list(r), want, "values"); ctx.check(r.dtype == int, "type"); ctx.close(utils.parse_floats(s), np.array(want,float), 0, 0, "floats")
			pairs = [p for p in parts if len(p) == 2]
			if pairs: ctx.eq(utils.parse_box(",".join("%d:%d" % p for p in pairs)), np.array(pairs,float).T, "parse_box")
def unit_match(ctx, items):
	P = np.array([[0,0],[0.1,0],[0.1,0.12],[3.1,0.0],[-3.1,0.05],[1.0,np.pi/2],[-2,np.pi/2-0.02]])
	C = np.array([np.cos(P[:,1])*np.cos(P[:,0]),np.cos(P[:,1])*np.sin(P[:,0]),np.sin(P[:,1])]).T
	D = np.arccos(np.clip(C@C.T,-1,1)); np.fill_diagonal(D,0)
	for i1, i2 in items:
		for r in (0.01,0.11,0.15,0.5,3.2):
			with ctx.case("crossmatch", pos1=i1, pos2=i2, rmax=r):
				a, b = P[list(i1)].reshape(-1,2), P[list(i2)].reshape(-1,2); ka, kb = a.copy(), b.copy()
				allp = [(x,y) for x in range(len(i1)) for y in range(len(i2)) if D[i1[x],i2[y]] <= r or r > np.pi]
				if r < np.pi: got = utils.crossmatch(a,b,r,mode="all"); ctx.eq(sorted(got), allp, "all")
				else: continue
				def greedy(seq):
					d1, d2, res = set(), set(), []
					for x, y in seq:
						if x in d1 or y in d2: continue
						d1.add(x); d2.add(y); res.append((x,y))
					return res
				ds = [D[i1[x],i2[y]] for x,y in allp]
				got = utils.crossmatch(a,b,r)
				ctx.check(set(got) <= set(allp) and len(set(x for x,_ in got)) == len(got) == len(set(y for _,y in got)), "one to one")
				# every match left out has a partner in a match at least as close
				gd = {p:D[i1[p[0]],i2[p[1]]] for p in got}
				ctx.check(all(p in gd or any((q[0] == p[0] or q[1] == p[1]) and gd[q] <= d+1e-6 for q in gd) for p,d in zip(allp,ds)), "closest first")
				got = utils.crossmatch(a,b,r,mode="first"); ctx.check(set(got) <= set(allp) and len(set(x for x,_ in got)) == len(got) == len(set(y for _,y in got)), "first is one to one"); ctx.check(all(p in got or any((q[0] == p[0] or q[1] == p[1]) and q < p for q in got) for p in allp), "first comes first")
				th = np.array([a[:,0],np.pi/2-a[:,1]]).T, np.array([b[:,0],np.pi/2-b[:,1]]).T; ctx.eq(sorted(utils.crossmatch(th[0],th[1],r,mode="all",coords="phitheta")), allp, "zenith angles")
				ca, cb = C[list(i1)].reshape(-1,3), C[list(i2)].reshape(-1,3); ctx.eq(sorted(utils.crossmatch(ca,cb,2*np.sin(r/2),mode="all")), allp, "cartesian"); ctx.eq(a,ka,"untouched"); ctx.eq(b,kb,"untouched")
def unit_poly(ctx, items):
	for poly in items:
		pts = [(x/2,y/2) for x in range(-3,4) for y in range(-3,4)]
		with ctx.case("point_in_polygon", polygon=poly):
			V = np.array(poly,float); want, use = [], []
			for p in pts:
				# skip points on the boundary
				on = False; w = 0.0
				for i in range(len(V)):
					a, b = V[i-1]-p, V[i]-p; cr = a[0]*b[1]-a[1]*b[0]
					if abs(cr) < 1e-9 and np.dot(a,b) <= 1e-9: on = True; break
					w += np.arctan2(cr,np.dot(a,b))
				if not on: use.append(p); want.append(int(round(w/(2*np.pi)))%2 == 1)
			if not use: continue
			got = utils.point_in_polygon(np.array(use),V); ctx.eq(got, np.array(want), "inside"); ctx.eq(np.array([bool(utils.point_in_polygon(p,V)) for p in use[:5]]), np.array(want[:5]), "single points")
			U = np.array(use)[:len(use)//2*2].reshape(2,-1,2); ctx.eq(utils.point_in_polygon(U,V), np.array(want)[:len(use)//2*2].reshape(2,-1), "two axes")
			ctx.eq(utils.point_in_polygon(np.array(use)[:,None],np.array([V,V+1])), np.array([utils.point_in_polygon(np.array(use),V),utils.point_in_polygon(np.array(use),V+1)]).T, "several polygons")
def unit_slices(ctx, items):
	a = np.arange(2*3*4*2).reshape(2,3,4,2)
	for sel in items:
		with ctx.case("split_slice", sel=repr(sel)):
			want = a[sel]
			for nd in ((2,2),(1,3),(4,),(1,1,2),(3,1),(0,4)):
				sub = utils.split_slice(sel,nd); ctx.check(len(sub) == len(nd) and all(sum(v is not None for v in q) <= m for q,m in zip(sub,nd)) and not any(v is Ellipsis for v in sum(sub,())), "each part addresses its own axes", state=(repr(sel),nd))
				ctx.eq(a[sum(sub,())], want, "split_slice")
				if sum(v is not None and v is not Ellipsis for v in sel) > 2: ctx.raises(lambda: utils.split_slice(sel,(1,1)), Exception, "too many indices")
	with ctx.case("split_slice bare"): ctx.eq(a[sum(utils.split_slice(1,(2,2)),())], a[1], "bare index"); ctx.eq(repr(utils.parse_slice("[1:3,...,None]")), repr(np.s_[1:3,...,None]), "parse_slice"); ctx.check(utils.parse_slice(None) is None, "parse_slice")
def unit_fmt(ctx, items):
	import re, fnmatch
	for fmt, vals in items:
		with ctx.case("printf matching", fmt=fmt):
			f = "p.%s_%%d%%%%q"%fmt; g = "p.%s_%%(b)dq"%fmt.replace("%","%(a)")
			rx, gl, rn = utils.format_to_regex(f), utils.format_to_glob(f), utils.format_to_regex(g)
			for v in vals:
				for k in (0,-3,120):
					st = f%(v,k); m = re.fullmatch(rx,st); ctx.check(m is not None, "the output %s matches %s"%(st,rx), state=(fmt,v,k)); ctx.check(fnmatch.fnmatchcase(st,gl), "the output %s matches %s"%(st,gl))
					if m: ctx.eq(m.groups()[-1], "%d"%k, "captured value"); ctx.eq(m.groups()[0].strip().lstrip("0") or "0", (fmt%v).strip().lstrip("0") or "0", "captured value")
					m = re.fullmatch(rn,g%{"a":v,"b":k}); ctx.check(m is not None and m.group("b") == "%d"%k, "named")
					for wrong in (st+"x","x"+st,st.replace("_","-")): ctx.check(re.fullmatch(rx,wrong) is None, "%s does not match"%wrong)
def unit_misc(ctx, items):
	for t in items:
		k = np.array(t)
		with ctx.case("small helpers", v=list(t)):
			x = k/4.0
			for off in (0,0.25,0.5,-0.25,3.75): ctx.eq(utils.hasoff(x,off), np.array([(v-int(off*4))%4 == 0 for v in t],bool), "hasoff"); ctx.eq(utils.hasoff(x+1e-3,off,tol=1e-2), np.array([(v-int(off*4))%4 == 0 for v in t],bool), "hasoff tolerance"); ctx.check(not np.any(utils.hasoff(x+1e-3,off)), "hasoff tolerance")
			ctx.eq(np.asarray(utils.is_int_valued(x)), np.array([v%4 == 0 for v in t],bool), "is_int_valued", ); ctx.check(True,"",state=t)
			for b in ((1,2),(5,),(3,4,0)):
				b = np.array(b); o = utils.outer_stack([k,b]) if len(k) else None
				if o is not None:
					ctx.eq(o, np.array(np.meshgrid(k,b,indexing="ij")), "outer_stack"); o = utils.outer_stack([k,b,k]); ctx.eq(o, np.array(np.meshgrid(k,b,k,indexing="ij")), "outer_stack")
			d = {"k%d"%i:int(v) for i,v in enumerate(t)}; r = utils.dict_apply_listfun(d,lambda l: [v*10+i for i,v in enumerate(l)]); ctx.eq(r, {q:v*10+i for i,(q,v) in enumerate(d.items())}, "dict_apply_listfun"); ctx.eq(d, {"k%d"%i:int(v) for i,v in enumerate(t)}, "untouched")
			l = [None if v == 0 else v for v in t]; w = [v for v in l if v is not None]; ctx.eq(utils.fallback(*l), w[0] if w else None, "fallback")
			for dt in (np.uint8,np.int16,np.uint32,np.int64):
				if not len(k): continue
				q = (k*37+k%2*200).astype(dt)[:1]; bits = utils.unpackbits(q); nb = 8*q.itemsize; ctx.eq(len(bits),nb,"unpackbits"); ctx.eq(np.array(bits), np.array([(int(q[0])>>i)&1 for i in range(nb)],np.uint8), "unpackbits")
			for shp in ((len(k),),(1,len(k)),(len(k),1,1),(1,1,len(k),1)): q = utils.atleast_3d(k.reshape(shp)); ctx.eq(q.shape, (1,)*(3-len(shp))+shp, "atleast_3d"); ctx.eq(np.asarray(q).reshape(-1), k, "atleast_3d")
			if len(k):
				v = k.astype(float)[None,:,None]; z = np.lib.stride_tricks.as_strided(v,strides=(0,8,0)); f = utils.fix_zero_strides(z); ctx.eq(np.array(f), np.array(z), "fix_zero_strides"); ctx.check(all(q != 0 for q in f.strides), "no zero strides"); g = k.copy(); ctx.check(utils.same_array(k,k) and utils.same_array(k,k[:]) and not utils.same_array(k,g) and not utils.same_array(k,k[::-1]) or len(k) < 1, "same_array")
			for src in (t,list(t),k): ctx.eq(utils.tuplify(src), tuple(src), "tuplify")
			ctx.eq(utils.tuplify(3), (3,), "tuplify")
			for dt in (int,np.int32,np.float32,np.float64,complex,bool): q = utils.asfarray(np.array(t,dt)); ctx.check(q.dtype == (dt if np.dtype(dt).kind in "fc" else np.float64) and np.array_equal(q,np.array(t,dt)), "asfarray")
			# capacities: the first item that does not fit within the capacity so far
			sz = np.abs(k); cap = (3,2,5); c = utils.cumsplit(sz,cap); ctx.eq(np.array(c), np.array([next((i for i in range(len(t)) if sum(sz[:i+1]) > sum(cap[:j+1])),len(t)) for j in range(3)]), "cumsplit")
def unit_sweep(ctx, items):
	for start, segs in items:
		with ctx.case("find_sweeps", start=start, lengths=segs):
			# full sweeps between -1 and 1 after a partial first one and before a partial last one
			az, turns, cur = [], [0], -1.0; lo = -1.0
			v = start; tgt = 1.0
			for i, n in enumerate(segs):
				az += list(np.linspace(v,tgt,n,endpoint=False)); turns.append(len(az)); v = tgt; tgt = -tgt
			az += [v]+list(np.linspace(v,v*0.5,20)[1:]); turns.append(len(az)); want = np.array([turns[:-1],turns[1:]]).T
			ctx.eq(np.asarray(utils.find_sweeps(az)), want, "sweeps"); ctx.eq(np.asarray(utils.find_sweeps(np.array(az)*3+7)), want, "sweeps of a scaled series"); ctx.check(True,"",state=(start,segs))
def units(tier):
	t = tier == "thorough"; n = 5 if t else 4
	yield from chunked("search", arrays(n,3), unit_search, 16 if t else 8)
	two = arrays(3,3); yield from chunked("sets", [(a,b) for a in two for b in two]+[(a,b,c) for a in arrays(2,3) for b in arrays(2,3) for c in arrays(2,3)], unit_sets, 8)
	yield from chunked("perm", range(7 if t else 6), unit_perm, 6)
	yield from chunked("split", [a for a in itertools.chain(*[itertools.product((0,1,3,7),repeat=m) for m in range(n+1)])], unit_split, 6)
	yield from chunked("stat", [(d,w) for m in range(1,5 if t else 4) for d in itertools.product((0,1,2.5),repeat=m) for w in itertools.product((0,1,3),repeat=m)], unit_stat, 8)
	yield from chunked("shape", [s for m in range(1,5 if t else 4) for s in itertools.product((1,2,3),repeat=m)]+([(5,),(4,2),(2,5)]), unit_shape, 12)
	shp = [s for m in range(4) for s in itertools.product((1,2,3),repeat=m)]
	yield from chunked("bcast", [(a,b) for a in shp for b in shp]+([(a,b,c) for a in shp[:13] for b in shp[:13] for c in shp[:13]]), unit_bcast, 6)
	yield from chunked("bins", range(1,201 if t else 61), unit_bins, 12)
	yield from chunked("hist", arrays(n,4), unit_hist, 4)
	bx1 = [(a,b) for a in range(0,4) for b in range(a+1,5)]
	bx = [(1,[x],[y]) for x in bx1 for y in bx1]+[(2,[((x[0],y[0]),(x[1],y[1]))],[((u[0],v[0]),(u[1],v[1])),((0,1),(3,2))]) for x in bx1[::2] for y in bx1[::3] for u in bx1[::2] for v in bx1[::2]]+[(3,[((x[0],y[0],0),(x[1],y[1],2)),((0,0,0),(1,1,1))],[((u[0],1,1),(u[1],3,4)),((0,1,1),(3,2,2)),((2,2,2),(3,3,3))]) for x in bx1 for y in bx1 for u in bx1]
	yield from chunked("boxes", bx, unit_boxes, 6)
	m = 7 if t else 6
	yield from chunked("str", ["".join(c) for k in range(m+1) for c in itertools.product("a,\\",repeat=k)], unit_str, 2)
	yield from chunked("grp", [s for k in range(m+1) for s in map("".join,itertools.product("a,([])",repeat=k)) if balanced(s)], unit_grp, 4)
	yield from chunked("path", ["".join(c) for k in range(1,m+1) for c in itertools.product("/a.",repeat=k)], unit_path, 2)
	el = [(0,),(5,),(-2,),(1,4),(4,1),(0,0),(-2,2),(0,7,3),(5,0,-2),(3,4,10)]
	yield from chunked("num", [p for k in (1,2,3) for p in itertools.product(el,repeat=k)], unit_num, 2)
	ix = [c for k in range(4 if t else 3) for c in itertools.product(range(7),repeat=k)]
	yield from chunked("match", [(a,b) for a in ix for b in (ix if not t else ix[:57]+ix[57::7])], unit_match, 12)
	v = [(x,y) for x in (-1,0,1) for y in (-1,0,1)]
	polys = [p for p in itertools.permutations(v,3)]+[p for p in itertools.permutations(v,4)][::(1 if t else 3)]+[[(-1,-1),(-1,1),(1,1),(1,-1)],[(0,-1.5),(1.5,0),(0,1.5),(-1.5,0)],[(-1,-1),(0,0.5),(1,-1),(1,1),(0,1),(-1,1)]]
	yield from chunked("poly", polys, unit_poly, 6)
	op = [0,1,slice(None),slice(0,2),slice(None,None,-1),None,Ellipsis]
	yield from chunked("slices", [q for k in range(1,5 if t else 4) for q in itertools.product(op,repeat=k) if sum(v is Ellipsis for v in q) < 2 and sum(v is not None and v is not Ellipsis for v in q) <= 4], unit_slices, 4)
	ints = (0,5,123,-7,-45,98765)
	yield from chunked("fmt", [(f,ints) for f in ("%d","%3d","%03d","%+d","%+04d","%-5d","%i","% d")]+[(f,(0.0,1.25,-3.5,1234.5678)) for f in ("%f","%.2f","%8.3f","%08.2f","%-9.1f","%+.3f","%e","%.3e","%12.2e")]+[(f,("a","foo","x.y")) for f in ("%s","%6s","%-6s")]+[(f,(0,1,255,4096)) for f in ("%x","%04x","%o","%X")], unit_fmt, 1)
	yield from chunked("misc", [p for k in range(4 if not t else 5) for p in itertools.product((0,1,4,-3,7),repeat=k)], unit_misc, 4)
	yield from chunked("sweep", [(st,sg) for st in (-1.0,-0.5,0.0,0.5) for k in range(1 if st == -1 else 2,5) for sg in itertools.product((50,80),repeat=k)], unit_sweep, 1)

% Generic Octave-side driver. Global env: VF_CASES, VF_OUT, VF_START.
1;
function a = vf_rd(f)
  t = fread(f, 1, 'int32');
  nd = fread(f, 1, 'int32');
  d = fread(f, nd, 'int32')';
  n = prod(d);
  switch (t)
    case 0, a = reshape(fread(f, n, 'double=>double'), d);
    case 1, a = reshape(fread(f, n, 'uint8=>char'), d);
    case 2, a = reshape(fread(f, n, 'single=>single'), d);
    case 3, a = reshape(logical(fread(f, n, 'uint8')), d);
    case 4, x = fread(f, n, 'double=>double'); y = fread(f, n, 'double=>double'); a = reshape(complex(x, y), d);
    case 5, a = reshape(fread(f, n, 'int32=>int32'), d);
    case 6
      a = cell(d);
      for k = 1:n
        a{k} = vf_rd(f);
      end
    case 7, a = struct('a', 1);
    case 8, a = @sin;
    case 10     % the same values stored as another class
      k = vf_rd(f);
      a = vf_rd(f);
      switch (k)
        case 'sparse', a = sparse(a);
        case 'int32', a = int32(a);
        case 'int64', a = int64(a);
        case 'uint8', a = uint8(a);
        case 'single', a = single(a);
        case 'logical', a = logical(a);
        case 'complex', a = complex(a);
        case 'range'
          r = a(1):(a(2) - a(1)):a(end);
          if (isequal(r, a))
            a = r;
          end
      end
  end
end
function vf_wr(f, a)
  if (ischar(a))
    t = 1;
  elseif (isa(a, 'single'))
    t = 2;
  elseif (islogical(a))
    t = 3; 
  elseif (isnumeric(a) && isreal(a) && isa(a, 'double'))
    t = 0;
  elseif (isa(a, 'int32'))
    t = 5;
  elseif (isnumeric(a) && ! isreal(a))
    t = 4;
  else
    t = 9;
  end
  if (t == 9)
    a = zeros(0, 0);
  else
    a = full(a);
  end
  fwrite(f, t, 'int32');
  fwrite(f, ndims(a), 'int32');
  fwrite(f, size(a), 'int32');
  switch (t)
    case 0, fwrite(f, a, 'double');
    case 1, fwrite(f, double(a), 'uint8');
    case 2, fwrite(f, a, 'single');
    case 3, fwrite(f, a, 'uint8');
    case 4, fwrite(f, real(a), 'double'); fwrite(f, imag(a), 'double');
    case 5, fwrite(f, a, 'int32');
  end
end
function vf_main()
  fi = fopen(getenv('VF_CASES'), 'r');
  fo = fopen(getenv('VF_OUT'), 'a');
  start = str2double(getenv('VF_START'));
  nc = fread(fi, 1, 'int32');
  pool = cell(1, 40);
  for i = 0:nc-1
    len = fread(fi, 1, 'int64');
    p = ftell(fi);
    if (i < start)
      fseek(fi, p + len, SEEK_SET);
      continue
    end
    fn = vf_rd(fi);
    nout = fread(fi, 1, 'int32');
    post = fread(fi, 1, 'int32');
    reuse = bitand(post, 2); post = bitand(post, 1);
    reps = fread(fi, 1, 'int32');
    nenv = fread(fi, 1, 'int32');
    envk = cell(1, nenv); envv = cell(1, nenv); envo = cell(1, nenv);
    for k = 1:nenv
      envk{k} = vf_rd(fi); envv{k} = vf_rd(fi);
    end
    na = fread(fi, 1, 'int32');
    args = cell(1, na);
    for k = 1:na
      args{k} = vf_rd(fi);
      if (reuse && isnumeric(args{k}) && numel(args{k}) > 0)
        % the caller's own variables, overwritten in place between the calls
        x = args{k}; args{k} = [];
        v = pool{k}; pool{k} = [];
        if (isequal(size(v), size(x)) && strcmp(class(v), class(x)) && isreal(x) && isreal(v))
          v(1:numel(v)) = x(:);
        else
          v = x; v(1) = x(1);
        end
        args{k} = v; pool{k} = v;
        v = []; x = [];
      end
    end
    fwrite(fo, [-1 i], 'int32'); fflush(fo);
    printf("\n@@VF %d\n", i); fflush(stdout);
    out = cell(1, nout);
    msg = '';
    for k = 1:nenv
      envo{k} = getenv(envk{k});
      if (strcmp(envv{k}, '<unset>'))
        unsetenv(envk{k});
      else
        setenv(envk{k}, envv{k});
      end
    end
    for rr = 1:reps
      ok = 1;
      try
        if (nout == 0)
          feval(fn, args{:});
        else
          [out{1:nout}] = feval(fn, args{:});
        end
      catch e
        ok = 0;
        msg = e.message;
      end
    end
    for k = nenv:-1:1
      if (isempty(envo{k}))
        unsetenv(envk{k});
      else
        setenv(envk{k}, envo{k});
      end
    end
    fflush(stdout);
    fwrite(fo, [-2 i ok], 'int32');
    vf_wr(fo, msg);
    if (ok)
      fwrite(fo, nout, 'int32');
      for k = 1:nout
        vf_wr(fo, out{k});
      end
    else
      fwrite(fo, 0, 'int32');
    end
    if (reuse && nout == 0)
      pool = cell(1, 40);
    end
    if (post)
      fwrite(fo, na, 'int32');
      for k = 1:na
        vf_wr(fo, args{k});
      end
    else
      fwrite(fo, 0, 'int32');
    end
    fflush(fo);
    printf("\n@@VFEND %d\n", i); fflush(stdout);
  end
  fwrite(fo, [-3 0], 'int32');
  fflush(fo);
  fclose(fo);
end
vf_main();

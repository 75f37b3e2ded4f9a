! One level of the block-tridiagonal system of the direct solver
! (Neal et al. 2022, SI, eqs. 4-23).
SUBROUTINE matrix_b4_inversion(k,jmax,kmax,nd,jb,jd,z,statn,qref,ckref,sjk,&
        a, om, dz, h, rr, cp, qjj,djj,cjj,rj)
  integer, INTENT(in) :: k, jmax, kmax, nd, jb, jd
  REAL, INTENT(in) :: z(kmax),statn(kmax),qref(nd,kmax),ckref(nd,kmax)
  REAL, INTENT(IN) :: sjk(jd-2,jd-2,kmax-1)
  REAL, INTENT(in) :: a, om, dz, h, rr, cp
  REAL, INTENT(OUT) :: qjj(jd-2,jd-2),djj(jd-2,jd-2),cjj(jd-2,jd-2),rj(jd-2)
  REAL :: d, pi, lat, an, bs, ck, dk, f, q
  INTEGER :: i, n
  pi = acos(-1.)
  d = pi/(jmax-1)
  do n = 1,jd-2
    do i = 1,jd-2
      lat = d*(i+jb)
      an = 1./(sin(lat+0.5*d)*cos(lat+0.5*d))
      bs = 1./(sin(lat-0.5*d)*cos(lat-0.5*d))
      f = 4.*om*om*h*a*a*d*d*sin(lat)/(cos(lat)*dz*dz*rr)
      ck = f*exp(z(k)/h)*exp((rr/cp-1.)*(z(k)+z(k+1))/(2.*h))*2./(statn(k)+statn(k+1))
      dk = f*exp(z(k)/h)*exp((rr/cp-1.)*(z(k)+z(k-1))/(2.*h))*2./(statn(k)+statn(k-1))
      cjj(i,n) = 0.
      djj(i,n) = 0.
      q = 0.
      if (n .eq. i) then
        cjj(i,n) = ck
        djj(i,n) = dk
        q = -(an+bs+ck+dk)
      endif
      if (n .eq. i+1) q = an
      if (n .eq. i-1) q = bs
      qjj(i,n) = q + ck*sjk(i,n,k)
      if (n .eq. 1) then
        rj(i) = -0.5*a*d*(qref(i+jb+2,k)-qref(i+jb,k))
        ! boundary wind: reference circulation of the southern boundary
        if (i .eq. 1) rj(i) = rj(i) - bs*(ckref(jb+1,k)/(2.*pi*a)-om*a*cos(d*jb))
      endif
    enddo
  enddo
END SUBROUTINE

SUBROUTINE matrix_after_inversion(k,kmax,jd,qjj,djj,cjj,rj,sjk,tjk)
  INTEGER, INTENT(in) :: k, kmax, jd
  REAL, INTENT(in) :: qjj(jd-2,jd-2),djj(jd-2,jd-2),cjj(jd-2,jd-2),rj(jd-2)
  REAL, INTENT(INOUT) :: sjk(jd-2,jd-2,kmax-1),tjk(jd-2,kmax-1)
  real :: s, c
  integer :: i, n, l
  do i = 1,jd-2
    do n = 1,jd-2
      sjk(i,n,k-1) = -sum(qjj(i,:)*djj(:,n))
    enddo
    s = 0.
    do n = 1,jd-2
      c = 0.
      do l = 1,jd-2
        c = c + cjj(n,l)*tjk(l,k)
      enddo
      s = s + qjj(i,n)*(rj(n)-c)
    enddo
    tjk(i,k-1) = s
  enddo
END SUBROUTINE

! Upward sweep: wind from the surface up, thermal wind for the temperature,
! hemispheric mean temperature equal to the domain average.
SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_cor, tref, qref, u, a, om, dz, h, rr, cp)
  INTEGER, INTENT(IN) :: jmax, kmax, nd, jb, jd
  REAL, INTENT(IN) :: sjk(jd-2,jd-2,kmax-1),tjk(jd-2,kmax-1),ckref(nd,kmax),tb(kmax),qref_over_cor(nd,kmax)
  REAL, INTENT(IN) :: a, om, dz, h, rr, cp
  REAL, INTENT(OUT) :: qref(nd,kmax), tref(jd,kmax), u(jd,kmax)
  real :: p(jd-2,kmax), pi, d, s, w, m
  integer :: i, j, k, l
  pi = acos(-1.)
  d = pi/(jmax-1)
  p(:,1) = 0.
  do k = 2,kmax
    do i = 1,jd-2
      s = tjk(i,k-1)
      do l = 1,jd-2
        s = s + sjk(i,l,k-1)*p(l,k-1)
      enddo
      p(i,k) = s
    enddo
  enddo
  do k = 1,kmax
    do j = 2,jd-1
      u(j,k) = p(j-1,k)/cos(d*(j-1+jb))
    enddo
    u(jd,k) = 2.*u(jd-1,k)-u(jd-2,k)
  enddo
  u(1,1) = 0.
  u(1,kmax) = (ckref(1+jb,kmax)/(2.*pi*a)-om*a*cos(d*jb))/cos(d*jb)
  do k = 1,kmax
    do j = 1,nd
      qref(j,k) = qref_over_cor(j,k)
      if (k .gt. 1 .and. k .lt. kmax) qref(j,k) = qref_over_cor(j,k)*sin(d*(j-1))
    enddo
  enddo
  do k = 2,kmax-1
    tref(1,k) = 0.
    tref(2,k) = 0.
    do j = 3,jd
      tref(j,k) = tref(j-2,k) - 2.*d*2.*om*sin(d*(j-2+jb))*a*(h/rr)*exp(rr*dz*(k-1)/(cp*h)) &
          *(u(j-1,k+1)-u(j-1,k-1))/(2.*dz)
    enddo
    m = 0.
    w = 0.
    do j = 1,nd-jb
      m = m + cos(d*(j-1+jb))*tref(j,k)
      w = w + cos(d*(j-1+jb))
    enddo
    do j = 1,jd
      tref(j,k) = tref(j,k) + tb(k) - m/w
    enddo
  enddo
  do j = 1,jd
    tref(j,1) = tref(j,2)-tb(2)+tb(1)
    tref(j,kmax) = tref(j,kmax-1)-tb(kmax-1)+tb(kmax)
  enddo
END SUBROUTINE

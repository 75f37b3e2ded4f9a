! NH18 reference states: area equivalence (as above), then the elliptic
! problem for the reference wind relaxed with red-black successive
! over-relaxation and Chebyshev acceleration, then thermal wind.
SUBROUTINE compute_reference_states(pv,uu,pt,stat,nlon,nlat,kmax,jd,npart,maxits,&
               a,om,dz,eps,h,dphi,dlambda,r,cp,rjac,qref,u,tref,num_of_iter)
    integer, intent(in) :: nlon,nlat,kmax,jd,npart,maxits
    real, intent(in) :: pv(nlon,nlat,kmax),uu(nlon,nlat,kmax),pt(nlon,nlat,kmax),stat(kmax)
    real, intent(in) :: a, om, dz,eps, h, dphi, dlambda, r, cp, rjac
    real, intent(out) :: qref(jd,kmax),u(jd,kmax),tref(jd,kmax)
    integer, intent(out) :: num_of_iter
    real :: pi, qmax, dq, al, w, ar, lat, s, fac, res, nrm, nrm0, relax, m, c
    real :: aq(npart), cq(npart), raw(jd,kmax), cref(jd,kmax), cbar(jd,kmax)
    real :: qbar(jd,kmax), tbar(jd,kmax), ubar(jd,kmax), tb(kmax)
    real :: an(jd,kmax), bs(jd,kmax), ck(jd,kmax), dk(jd,kmax), ek(jd,kmax), fk(jd,kmax)
    integer :: i, j, k, n, b, it
    pi = acos(-1.)
    do k = 1,kmax
      do j = 1,jd
        qbar(j,k) = sum(pv(:,jd-1+j,k))/nlon
        tbar(j,k) = sum(pt(:,jd-1+j,k))/nlon
        ubar(j,k) = sum(uu(:,jd-1+j,k))/nlon
      enddo
    enddo
    do k = 1,kmax
      s = 0.
      w = 0.
      do j = 1,nlat-jd+1
        c = cos(dphi*(j+jd-2)-pi/2.)
        s = s + tbar(j,k)*c
        w = w + c
      enddo
      tb(k) = s/w
    enddo
    raw(:,:) = 0.
    cref(:,:) = 0.
    cbar(:,:) = 0.
    do k = 2,kmax-1
      qmax = maxval(pv(:,:,k))
      dq = (qmax-minval(pv(:,:,k)))/(npart-1)
      do n = 1,npart
        aq(n) = 0.
        cq(n) = 0.
        do j = 1,nlat
          do i = 1,nlon
            ar = a*a*dphi*dlambda*cos(dphi*(j-1)-pi/2.)
            b = int((qmax-pv(i,j,k))/dq)
            if (b .ge. 1 .and. b .lt. n) then
              aq(n) = aq(n) + ar
              cq(n) = cq(n) + ar*pv(i,j,k)
            endif
          enddo
        enddo
      enddo
      do j = 1,jd-1
        al = 2.*pi*a*a*(1.-sin(dphi*(j-1)))
        do n = 1,npart-1
          if (aq(n) .le. al .and. al .lt. aq(n+1)) then
            w = (al-aq(n))/(aq(n+1)-aq(n))
            raw(j,k) = qmax - dq*(n-1+w)
            cref(j,k) = cq(n) + w*(cq(n+1)-cq(n))
          endif
        enddo
      enddo
      raw(jd,k) = qmax
      do j = 1,jd-1
        do n = j,jd-1
          cbar(j,k) = cbar(j,k) + pi*a*a*dphi*cos(dphi*(n-0.5))*(qbar(n,k)+qbar(n+1,k))
        enddo
      enddo
    enddo
    qref(:,:) = 0.
    do k = 2,kmax-1
      do j = 2,jd
        qref(j,k) = raw(j,k)/(2.*om*sin(dphi*(j-1)))
      enddo
      qref(1,k) = 2.*qref(2,k)-qref(3,k)
    enddo

    nrm0 = 0.
    do j = 2,jd-1
      lat = dphi*(j-1)
      do k = 2,kmax-1
        fac = 4.*om*om*h*a*a*dphi*dphi*sin(lat)/(cos(lat)*dz*dz*r)*exp(dz*(k-1)/h)
        an(j,k) = 1./(sin(lat+0.5*dphi)*cos(lat+0.5*dphi))
        bs(j,k) = 1./(sin(lat-0.5*dphi)*cos(lat-0.5*dphi))
        ck(j,k) = fac*exp((r/cp-1.)*dz*(k-0.5)/h)*2./(stat(k)+stat(k+1))
        dk(j,k) = fac*exp((r/cp-1.)*dz*(k-1.5)/h)*2./(stat(k)+stat(k-1))
        ek(j,k) = -(an(j,k)+bs(j,k)+ck(j,k)+dk(j,k))
        fk(j,k) = -om*a*dphi*(qref(j+1,k)-qref(j-1,k))
        nrm0 = nrm0 + abs(fk(j,k))
      enddo
    enddo
    u(:,:) = 0.
    relax = 1.
    do it = 1,maxits
      nrm = 0.
      do j = 2,jd-1
        do k = 2,kmax-1
          if (mod(j+k+it,2) .eq. 0) then
            res = an(j,k)*u(j+1,k)+bs(j,k)*u(j-1,k)+ck(j,k)*u(j,k+1)+dk(j,k)*u(j,k-1)+ek(j,k)*u(j,k)-fk(j,k)
            nrm = nrm + abs(res)
            if (ek(j,k) .ne. 0.) then
              u(j,k) = u(j,k) - relax*res/ek(j,k)
            else
              u(j,k) = 0.
            endif
          endif
        enddo
        ! lower and upper boundary: no wind, thermal wind
        u(j,1) = 0.
        lat = dphi*(j-1)
        u(j,kmax) = u(j,kmax-2) - dz*r*cos(lat)*exp(-dz*(kmax-2)*r/(cp*h)) &
             *(tbar(j+1,kmax-1)-tbar(j-1,kmax-1))/(2.*om*sin(lat)*dphi*h*a)
      enddo
      u(jd,:) = 0.
      do k = 1,kmax
        u(1,k) = ubar(1,k) + (cref(1,k)-cbar(1,k))/(2.*pi*a)
      enddo
      if (it .eq. 1) then
        relax = 1./(1.-0.5*rjac*rjac)
      else
        relax = 1./(1.-0.25*rjac*rjac*relax)
      endif
      if (it .gt. 1 .and. nrm .lt. eps*nrm0) goto 10
    enddo
    u(:,:) = 0.
10  continue
    num_of_iter = it
    do k = 1,kmax
      do j = 2,jd-1
        u(j,k) = u(j,k)/cos(dphi*(j-1))
      enddo
      u(1,k) = ubar(1,k)
      u(jd,k) = 2.*u(jd-1,k)-u(jd-2,k)
    enddo
    do k = 2,kmax-1
      tref(1,k) = 0.
      tref(2,k) = 0.
      do j = 3,jd
        lat = dphi*(j-2)
        tref(j,k) = tref(j-2,k) - 2.*dphi*2.*om*sin(lat)*a*(h/r)*exp(r*dz*(k-1)/(cp*h)) &
            *(u(j-1,k+1)-u(j-1,k-1))/(2.*dz)
      enddo
      m = 0.
      w = 0.
      do j = 1,jd
        m = m + cos(dphi*(j-1))*tref(j,k)
        w = w + cos(dphi*(j-1))
      enddo
      do j = 1,jd
        tref(j,k) = tref(j,k) + tb(k) - m/w
      enddo
    enddo
    do j = 1,jd
      tref(j,1) = tref(j,2)-tb(2)+tb(1)
      tref(j,kmax) = tref(j,kmax-1)-tb(kmax-1)+tb(kmax)
    enddo
end subroutine

! Reference PV by area equivalence over the whole globe (n bins of equal PV
! width from the maximum down), circulation and FAWA, and the top boundary
! condition of the direct solver (Neal et al. 2022, SI, eqs. 24-25).
SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, jmax, kmax, nd, nnd, jb, jd, &
        a, omega, dz, h, dphi, dlambda, rr, cp, qref, ubar, tbar, fawa, ckref, tjk, sjk)
  REAL, INTENT(IN) :: pv(imax,jmax,kmax),uu(imax,jmax,kmax),vort(imax,jmax,kmax),pt(imax,jmax,kmax),tn0(kmax)
  INTEGER, INTENT(IN) :: imax, jmax, kmax, nd, nnd, jb, jd
  REAL, INTENT(in) :: a, omega, dz, h, dphi, dlambda, rr, cp
  REAL, INTENT(OUT) :: qref(nd,kmax),ubar(nd,kmax),tbar(nd,kmax),fawa(nd,kmax),ckref(nd,kmax),&
          tjk(jd-2,kmax-1),sjk(jd-2,jd-2,kmax-1)
  REAL :: pi, qmax, dq, vmax, dv, al, w, ar, lat
  REAL :: aq(nnd), cq(nnd), av(nnd), cv(nnd), cref(nd,kmax), qbar(nd,kmax), raw(nd,kmax), cbar(nd,kmax)
  INTEGER :: i, j, k, n, b
  pi = acos(-1.)
  do k = 1,kmax
    do j = 1,nd
      qbar(j,k) = sum(pv(:,nd-1+j,k))/imax
      tbar(j,k) = sum(pt(:,nd-1+j,k))/imax
      ubar(j,k) = sum(uu(:,nd-1+j,k))/imax
    enddo
  enddo
  raw(:,:) = 0.
  cref(:,:) = 0.
  cbar(:,:) = 0.
  ckref(:,:) = 0.
  do k = 2,kmax-1
    qmax = maxval(pv(:,:,k))
    dq = (qmax-minval(pv(:,:,k)))/(nnd-1)
    vmax = maxval(vort(:,:,k))
    dv = (vmax-minval(vort(:,:,k)))/(nnd-1)
    ! area (and PV) found above each bin edge; the first bin is left out
    do n = 1,nnd
      aq(n) = 0.
      cq(n) = 0.
      av(n) = 0.
      cv(n) = 0.
      do j = 1,jmax
        do i = 1,imax
          ar = a*a*dphi*dlambda*cos(dphi*(j-1)-pi/2.)
          b = int((qmax-pv(i,j,k))/dq)
          if (b .ge. 1 .and. b .lt. n) then
            aq(n) = aq(n) + ar
            cq(n) = cq(n) + ar*pv(i,j,k)
          endif
          b = int((vmax-vort(i,j,k))/dv)
          if (b .ge. 1 .and. b .lt. n) then
            av(n) = av(n) + ar
            cv(n) = cv(n) + ar*vort(i,j,k)
          endif
        enddo
      enddo
    enddo
    do j = 1,nd-1
      al = 2.*pi*a*a*(1.-sin(dphi*(j-1)))
      do n = 1,nnd-1
        if (aq(n) .le. al .and. al .lt. aq(n+1)) then
          w = (al-aq(n))/(aq(n+1)-aq(n))
          raw(j,k) = qmax - dq*(n-1+w)
          cref(j,k) = cq(n) + w*(cq(n+1)-cq(n))
        endif
        if (av(n) .le. al .and. al .lt. av(n+1)) then
          w = (al-av(n))/(av(n+1)-av(n))
          ckref(j,k) = cv(n) + w*(cv(n+1)-cv(n))
        endif
      enddo
    enddo
    raw(nd,k) = qmax
    do j = 1,nd-1
      do n = j,nd-1
        cbar(j,k) = cbar(j,k) + pi*a*a*dphi*cos(dphi*(n-0.5))*(qbar(n,k)+qbar(n+1,k))
      enddo
    enddo
  enddo
  qref(:,:) = 0.
  do k = 2,kmax-1
    do j = 2,nd
      qref(j,k) = raw(j,k)/sin(dphi*(j-1))
    enddo
    qref(1,k) = 2.*qref(2,k)-qref(3,k)
  enddo
  do k = 1,kmax
    do j = 1,nd
      fawa(j,k) = (cref(j,k)-cbar(j,k))/(2.*pi*a)
    enddo
  enddo
  tjk(:,:) = 0.
  sjk(:,:,:) = 0.
  do j = 2,jd-1
    lat = dphi*(j-1+jb)
    tjk(j-1,kmax-1) = -dz*rr*cos(lat)*exp(-dz*(kmax-2)*rr/(cp*h))*(tbar(j+1,kmax)-tbar(j-1,kmax)) &
       /(4.*omega*sin(lat)*dphi*h*a)
    sjk(j-1,j-1,kmax-1) = 1.
  enddo
END SUBROUTINE

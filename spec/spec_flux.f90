! Local wave activity, its source, and the flux terms F1, F2, F3, the two
! momentum-flux terms and the low-level heat flux (Huang & Nakamura 2017 SI,
! Neal et al. 2022 SI).  Rows nd..jmax are latitudes 0..90; the reference
! states start at row jb+1.
SUBROUTINE compute_flux_dirinv_nshem( pv, uu, vv, pt, ncforce, tn0, qref, uref, tref, &
    imax, jmax, kmax, nd, jb, jd, is_nhem, a, om, dz, h, rr, cp, prefac, &
    astar1, astar2, ncforce3d, ua1, ua2, ep1, ep2, ep3, ep4)
  REAL, INTENT(IN) :: pv(imax,jmax,kmax),uu(imax,jmax,kmax),vv(imax,jmax,kmax),pt(imax,jmax,kmax), &
          ncforce(imax, jmax, kmax), tn0(kmax),qref(nd,kmax),uref(jd,kmax),tref(jd,kmax)
  INTEGER, INTENT(IN) :: imax, jmax, kmax, nd, jb, jd
  LOGICAL, INTENT(IN) :: is_nhem
  REAL, INTENT(IN) :: a, om, dz, h, rr, cp, prefac
  REAL, INTENT(OUT) :: astar1(imax,nd,kmax), astar2(imax,nd,kmax), ncforce3d(imax,nd,kmax), &
          ua1(imax,nd,kmax),  ua2(imax,nd,kmax), ep1(imax,nd,kmax), ep2(imax,nd,kmax), ep3(imax,nd,kmax), ep4(imax,nd)
  REAL :: d, q, ue, s1, s2, s3, s4, ur, lat
  INTEGER :: i, j, k, n, g
  d = acos(-1.)/(jmax-1)
  astar1(:,:,:) = 0.
  astar2(:,:,:) = 0.
  ncforce3d(:,:,:) = 0.
  ua1(:,:,:) = 0.
  ua2(:,:,:) = 0.
  ep1(:,:,:) = 0.
  ep2(:,:,:) = 0.
  ep3(:,:,:) = 0.
  ep4(:,:) = 0.
  do k = 2,kmax-1
    do j = jb+1,nd-1
      lat = d*(j-1)
      g = nd-1+j
      do i = 1,imax
        s1 = 0.
        s2 = 0.
        s3 = 0.
        s4 = 0.
        ur = uref(j-jb,k)
        do n = 1,j-1
          q = pv(i,nd-1+n,k)-qref(j,k)
          if (q .gt. 0.) then
            s1 = s1 + q*cos(d*(n-1))
            s3 = s3 + ncforce(i,nd-1+n,k)*cos(d*(n-1))
            s4 = s4 + q*(uu(i,nd-1+n,k)*cos(lat)-ur*cos(d*(n-1)))
          endif
        enddo
        do n = j,nd
          q = pv(i,nd-1+n,k)-qref(j,k)
          if (q .le. 0.) then
            s2 = s2 - q*cos(d*(n-1))
            s3 = s3 - ncforce(i,nd-1+n,k)*cos(d*(n-1))
            s4 = s4 - q*(uu(i,nd-1+n,k)*cos(lat)-ur*cos(d*(n-1)))
          endif
        enddo
        astar1(i,j,k) = a*d*s1
        astar2(i,j,k) = a*d*s2
        ncforce3d(i,j,k) = a*d*s3
        ua2(i,j,k) = a*d*s4
        ua1(i,j,k) = ur*a*d*(s1+s2)
        ep1(i,j,k) = 0.5*cos(lat)*( vv(i,g,k)**2 - (uu(i,g,k)-ur)**2 &
          - (rr/h)*exp(-(rr/cp)*dz*(k-1)/h)*(pt(i,g,k)-tref(j-jb,k))**2*2.*dz/(tn0(k+1)-tn0(k-1)) )
        ep2(i,j,k) = cos(lat+d)**2*vv(i,g+1,k)*(uu(i,g+1,k)-uref(j-jb+1,k))
        ! the southernmost row of the reference state has no southern neighbour
        ep3(i,j,k) = cos(lat-d)**2*vv(i,g-1,k)*(uu(i,g-1,k)-uref(max(j-jb-1,1),k))
      enddo
    enddo
    if (jb .ge. 1) then
      do i = 1,imax
        ep2(i,jb,k) = cos(d*jb)**2*vv(i,nd+jb+1,k)*(uu(i,nd+jb+1,k)-uref(2,k))
        ep3(i,jb,k) = cos(d*(jb-1))**2*vv(i,nd+jb,k)*(uu(i,nd+jb,k)-uref(1,k))
      enddo
    endif
  enddo
  do j = jb+1,nd-1
    lat = d*(j-1)
    g = nd-1+j
    do i = 1,imax
      ep4(i,j) = 2.*om*sin(lat)*cos(lat)*(dz/prefac)* &
        ( exp(-dz/h)*vv(i,g,2)*(pt(i,g,2)-tref(j-jb,2))/(tn0(3)-tn0(1)) &
        + 0.5*vv(i,g,1)*(pt(i,g,1)-tref(j-jb,1))/(tn0(2)-tn0(1)) )
    enddo
  enddo
END SUBROUTINE

! Local wave activity times cos(latitude) of the hemisphere (rows nd..jmax of
! the global arrays are latitudes 0..90): Huang & Nakamura 2016, eq. 13.
SUBROUTINE compute_lwa_only_nhn22(pv,uu,qref, imax, jmax, kmax, nd, jb, is_nhem, &
        a, om, dz, h, rr, cp, prefac, astarbaro, ubaro, astar1, astar2)
  REAL, INTENT(IN) :: pv(imax,jmax,kmax),uu(imax,jmax,kmax),qref(nd,kmax)
  INTEGER, INTENT(IN) :: imax, jmax, kmax, nd, jb
  LOGICAL, INTENT(IN) :: is_nhem
  REAL, INTENT(IN) :: a, om, dz, h, rr, cp, prefac
  REAL, INTENT(OUT) :: astarbaro(imax, nd), ubaro(imax, nd), astar1(imax,nd,kmax), astar2(imax,nd,kmax)
  REAL :: d, q, s1, s2
  INTEGER :: i, j, k, n
  d = acos(-1.)/(jmax-1)
  astarbaro(:,:) = 0.
  ubaro(:,:) = 0.
  astar1(:,:,:) = 0.
  astar2(:,:,:) = 0.
  do k = 2,kmax-1
    do j = jb+1,nd-1
      do i = 1,imax
        ! cyclonic: PV above the reference value south of the latitude
        s1 = 0.
        do n = 1,j-1
          q = pv(i,nd-1+n,k)-qref(j,k)
          if (q .gt. 0.) s1 = s1 + q*cos(d*(n-1))
        enddo
        ! anticyclonic: PV below the reference value at and north of it
        s2 = 0.
        do n = j,nd
          q = pv(i,nd-1+n,k)-qref(j,k)
          if (q .le. 0.) s2 = s2 - q*cos(d*(n-1))
        enddo
        astar1(i,j,k) = a*d*s1
        astar2(i,j,k) = a*d*s2
      enddo
    enddo
  enddo
  do j = jb+1,nd-1
    do i = 1,imax
      do k = 2,kmax-1
        astarbaro(i,j) = astarbaro(i,j) + (astar1(i,j,k)+astar2(i,j,k))*exp(-dz*(k-1)/h)*dz/prefac
        ubaro(i,j) = ubaro(i,j) + uu(i,nd-1+j,k)*exp(-dz*(k-1)/h)*dz/prefac
      enddo
    enddo
  enddo
END SUBROUTINE

! Same vorticity; planetary vorticity in the stretching term; the southern
! reference profile is used up to and including row jd (the equator).
SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
        ts0, tn0, stats, statn, aa, omega, dz, hh, rr, cp, pv, avort)
    INTEGER, INTENT(IN) :: nlon, nlat, kmax, jd
    REAL, INTENT(IN) :: uq(nlon,nlat,kmax), vq(nlon,nlat,kmax), tq(nlon,nlat,kmax), height(kmax)
    REAL, INTENT(in) :: ts0(kmax), tn0(kmax), stats(kmax), statn(kmax)
    REAL, INTENT(in) :: aa, omega, dz, hh, rr, cp
    REAL, INTENT(out) :: pv(nlon,nlat,kmax), avort(nlon,nlat,kmax)
    REAL :: pi, d, lat, up, dn
    INTEGER :: i, j, k, ie, iw

    pi = acos(-1.)
    d = pi/(nlat-1)
    pv(:,:,:) = 0.
    do k = 1,kmax
        do j = 2,nlat-1
            lat = (j-1)*d - pi/2.
            do i = 1,nlon
                ie = i+1
                if (i .eq. nlon) ie = 1
                iw = i-1
                if (i .eq. 1) iw = nlon
                avort(i,j,k) = 2.*omega*sin(lat) &
                    + ( vq(ie,j,k) - vq(iw,j,k) &
                        - uq(i,j+1,k)*cos(lat+d) + uq(i,j-1,k)*cos(lat-d) ) / (2.*d*aa*cos(lat))
            enddo
        enddo
        do i = 1,nlon
            avort(i,1,k) = sum(avort(:,2,k))/nlon
            avort(i,nlat,k) = sum(avort(:,nlat-1,k))/nlon
        enddo
    enddo
    do k = 2,kmax-1
        do j = 1,nlat
            lat = (j-1)*d - pi/2.
            do i = 1,nlon
                if (j .le. jd) then
                    up = (tq(i,j,k+1)-ts0(k+1))/stats(k+1)
                    dn = (tq(i,j,k-1)-ts0(k-1))/stats(k-1)
                else
                    up = (tq(i,j,k+1)-tn0(k+1))/statn(k+1)
                    dn = (tq(i,j,k-1)-tn0(k-1))/statn(k-1)
                endif
                pv(i,j,k) = avort(i,j,k) + 2.*omega*sin(lat)*exp(height(k)/hh) * &
                    (up*exp(-height(k+1)/hh) - dn*exp(-height(k-1)/hh))/(height(k+1)-height(k-1))
            enddo
        enddo
    enddo
END SUBROUTINE

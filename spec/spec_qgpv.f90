! Specification of the quasi-geostrophic potential vorticity on the analysis
! grid (Nakamura & Huang 2018, eq. 3; Neal et al. 2022, SI).  One formula per
! element; read by the static analyser, never compiled or run.
SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
                        aa, omega, dz, hh, rr, cp, pv, avort)
    INTEGER, INTENT(IN) :: nlon, nlat, kmax
    REAL, INTENT(IN) :: ut(nlon,nlat,kmax), vt(nlon,nlat,kmax), theta(nlon,nlat,kmax), &
                        height(kmax), t0(kmax), stat(kmax)
    REAL, INTENT(in) :: aa, omega, dz, hh, rr, cp
    REAL, INTENT(out) :: pv(nlon,nlat,kmax), avort(nlon,nlat,kmax)
    REAL :: pi, d, lat, zm
    INTEGER :: i, j, k, ie, iw

    pi = acos(-1.)
    d = pi/(nlat-1)
    pv(:,:,:) = 0.
    ! absolute vorticity: f + (1/a cos)(dv/dlambda - d(u cos)/dphi), periodic in longitude
    do k = 1,kmax
        do j = 2,nlat-1
            lat = (j-1)*d - pi/2.
            do i = 1,nlon
                ie = i+1
                if (i .eq. nlon) ie = 1
                iw = i-1
                if (i .eq. 1) iw = nlon
                avort(i,j,k) = 2.*omega*sin(lat) &
                    + ( vt(ie,j,k) - vt(iw,j,k) &
                        - ut(i,j+1,k)*cos(lat+d) + ut(i,j-1,k)*cos(lat-d) ) / (2.*d*aa*cos(lat))
            enddo
        enddo
        ! poles: zonal mean of the adjacent circle
        do i = 1,nlon
            avort(i,1,k) = sum(avort(:,2,k))/nlon
            avort(i,nlat,k) = sum(avort(:,nlat-1,k))/nlon
        enddo
    enddo
    ! stretching term, with the zonal-mean absolute vorticity of the latitude
    do k = 2,kmax-1
        do j = 1,nlat
            zm = sum(avort(:,j,k))/nlon
            do i = 1,nlon
                pv(i,j,k) = avort(i,j,k) + zm*exp(height(k)/hh)/(height(k+1)-height(k-1)) * &
                   ( (theta(i,j,k+1)-t0(k+1))*exp(-height(k+1)/hh)/stat(k+1) &
                   - (theta(i,j,k-1)-t0(k-1))*exp(-height(k-1)/hh)/stat(k-1) )
            enddo
        enddo
    enddo
END SUBROUTINE

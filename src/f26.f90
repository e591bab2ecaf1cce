! C entry points to the type-bound procedures of the Fortran interface, for c26.cc. A null pointer is an absent argument.
module f26
    use, intrinsic :: iso_c_binding
    use odc
    implicit none
    private

    integer, parameter :: n = 4
    integer, parameter :: long_int = selected_int_kind(15)
    integer, parameter :: dp = selected_real_kind(15, 307)
    type(odc_reader), save :: readers(n)
    type(odc_frame), save :: frames(n)
    type(odc_decoder), save :: decoders(n)
    type(odc_encoder), save :: encoders(n)

    integer(c_long), bind(c, name='ff_handled_context') :: handled_context
    integer(c_int), bind(c, name='ff_handled_error') :: handled_error
    integer(c_int), bind(c, name='ff_handled') :: handled

contains

    ! the caller's text, with its blanks
    function text(p, l) result(s)
        type(c_ptr), intent(in) :: p
        integer(c_int), intent(in) :: l
        character(:), allocatable :: s
        character(c_char), pointer :: c(:)
        integer :: i
        allocate(character(l) :: s)
        if (l > 0) call c_f_pointer(p, c, [l])
        do i = 1, l
            s(i:i) = c(i)
        end do
    end function

    ! text for the caller, who has 256 bytes for it
    subroutine give(s, p)
        character(:), allocatable, intent(in) :: s
        type(c_ptr), intent(in) :: p
        character(c_char), pointer :: c(:)
        integer :: i
        call c_f_pointer(p, c, [256])
        if (.not. allocated(s)) then
            c(1) = char(1)
            c(2) = c_null_char
            return
        end if
        do i = 1, min(len(s), 255)
            c(i) = s(i:i)
        end do
        c(min(len(s), 255) + 1) = c_null_char
    end subroutine

    ! ---- settings

    integer(c_int) function ff_version(p) bind(c)
        type(c_ptr), value :: p
        character(:), allocatable :: s
        ff_version = odc_version(s)
        call give(s, p)
    end function

    integer(c_int) function ff_vcs_version(p) bind(c)
        type(c_ptr), value :: p
        character(:), allocatable :: s
        ff_vcs_version = odc_vcs_version(s)
        call give(s, p)
    end function

    integer(c_int) function ff_type_name(t, p) bind(c)
        integer(c_int), value :: t
        type(c_ptr), value :: p
        character(:), allocatable :: s
        ff_type_name = odc_column_type_name(t, s)
        call give(s, p)
    end function

    integer(c_int) function ff_type_count(c) bind(c)
        integer(c_int) :: c
        ff_type_count = odc_column_type_count(c)
    end function

    subroutine ff_error_string(err, p) bind(c)
        integer(c_int), value :: err
        type(c_ptr), value :: p
        character(:), allocatable :: s
        s = odc_error_string(err)
        call give(s, p)
    end subroutine

    integer(c_int) function ff_missing(i, d) bind(c)
        integer(c_long) :: i
        real(c_double) :: d
        ff_missing = odc_missing_integer(i)
        if (ff_missing == ODC_SUCCESS) ff_missing = odc_missing_double(d)
    end function

    integer(c_int) function ff_set_missing(i, d) bind(c)
        integer(c_long), value :: i
        real(c_double), value :: d
        ff_set_missing = odc_set_missing_integer(i)
        if (ff_set_missing == ODC_SUCCESS) ff_set_missing = odc_set_missing_double(d)
    end function

    integer(c_int) function ff_integer_behaviour(b) bind(c)
        integer(c_int), value :: b
        ff_integer_behaviour = odc_integer_behaviour(b)
    end function

    subroutine handler(ctx, err)
        integer(long_int), intent(in) :: ctx
        integer, intent(in) :: err
        handled_context = ctx
        handled_error = err
        handled = handled + 1
    end subroutine

    integer(c_int) function ff_set_handler(ctx) bind(c)
        integer(c_long), value :: ctx
        integer(long_int) :: c
        c = ctx
        ff_set_handler = odc_set_failure_handler(handler, c)
    end function

    ! ---- readers and frames

    integer(c_int) function ff_open(r, p, l) bind(c)
        integer(c_int), value :: r, l
        type(c_ptr), value :: p
        ff_open = readers(r)%open_path(text(p, l))
    end function

    integer(c_int) function ff_close(r) bind(c)
        integer(c_int), value :: r
        ff_close = readers(r)%close()
    end function

    integer(c_int) function ff_frame(f, r) bind(c)
        integer(c_int), value :: f, r
        ff_frame = frames(f)%initialise(readers(r))
    end function

    integer(c_int) function ff_frame_free(f) bind(c)
        integer(c_int), value :: f
        ff_frame_free = frames(f)%free()
    end function

    integer(c_int) function ff_frame_copy(f, g) bind(c)
        integer(c_int), value :: f, g
        ff_frame_copy = frames(f)%copy(frames(g))
    end function

    integer(c_int) function ff_next(f, aggregated, maximum_rows) bind(c)
        integer(c_int), value :: f
        integer(c_int), optional, intent(in) :: aggregated
        integer(c_long), optional, intent(in) :: maximum_rows
        logical, target :: l
        logical, pointer :: a
        nullify(a)
        if (present(aggregated)) then
            l = aggregated /= 0
            a => l
        end if
        ff_next = frames(f)%next(a, maximum_rows)
    end function

    integer(c_int) function ff_counts(f, rows, cols, props) bind(c)
        integer(c_int), value :: f
        integer(c_long) :: rows
        integer(c_int) :: cols, props
        ff_counts = frames(f)%row_count(rows)
        if (ff_counts == ODC_SUCCESS) ff_counts = frames(f)%column_count(cols)
        if (ff_counts == ODC_SUCCESS) ff_counts = frames(f)%properties_count(props)
    end function

    integer(c_int) function ff_column(f, c, name, type, bytes, doubles, bits) bind(c)
        integer(c_int), value :: f, c
        type(c_ptr), value :: name
        integer(c_int), optional, intent(out) :: type, bytes, doubles, bits
        character(:), allocatable :: s
        if (c_associated(name)) then
            ff_column = frames(f)%column_attributes(c, s, type, bytes, doubles, bits)
            call give(s, name)
        else
            ff_column = frames(f)%column_attributes(c, type=type, element_size=bytes, element_size_doubles=doubles, &
                                                    bitfield_count=bits)
        end if
    end function

    integer(c_int) function ff_bits(f, c, b, name, offset, size) bind(c)
        integer(c_int), value :: f, c, b
        type(c_ptr), value :: name
        integer(c_int), optional, intent(out) :: offset, size
        character(:), allocatable :: s
        if (c_associated(name)) then
            ff_bits = frames(f)%bitfield_attributes(c, b, s, offset, size)
            call give(s, name)
        else
            ff_bits = frames(f)%bitfield_attributes(c, b, offset=offset, size=size)
        end if
    end function

    integer(c_int) function ff_property_idx(f, i, key, val) bind(c)
        integer(c_int), value :: f, i
        type(c_ptr), value :: key, val
        character(:), allocatable :: k, v
        ff_property_idx = frames(f)%property_idx(i, k, v)
        call give(k, key)
        call give(v, val)
    end function

    integer(c_int) function ff_property(f, key, l, val, exists) bind(c)
        integer(c_int), value :: f, l
        type(c_ptr), value :: key, val
        integer(c_int), optional, intent(out) :: exists
        character(:), allocatable :: v
        logical, target :: there
        logical, pointer :: e
        nullify(e)
        if (present(exists)) e => there
        there = .false.
        if (c_associated(val)) then
            ff_property = frames(f)%property(text(key, l), v, e)
            call give(v, val)
        else
            ff_property = frames(f)%property(text(key, l), exists=e)
        end if
        if (present(exists)) exists = merge(1, 0, there)
    end function

    ! ---- decoders

    integer(c_int) function ff_decoder(d, column_major) bind(c)
        integer(c_int), value :: d
        integer(c_int), optional, intent(in) :: column_major
        logical, target :: l
        logical, pointer :: a
        nullify(a)
        if (present(column_major)) then
            l = column_major /= 0
            a => l
        end if
        ff_decoder = decoders(d)%initialise(a)
    end function

    integer(c_int) function ff_decoder_free(d) bind(c)
        integer(c_int), value :: d
        ff_decoder_free = decoders(d)%free()
    end function

    integer(c_int) function ff_decoder_defaults(d, f) bind(c)
        integer(c_int), value :: d, f
        ff_decoder_defaults = decoders(d)%defaults_from_frame(frames(f))
    end function

    integer(c_int) function ff_decoder_set_rows(d, rows) bind(c)
        integer(c_int), value :: d
        integer(c_long), value :: rows
        ff_decoder_set_rows = decoders(d)%set_row_count(rows)
    end function

    integer(c_int) function ff_decoder_counts(d, rows, cols) bind(c)
        integer(c_int), value :: d
        integer(c_long) :: rows
        integer(c_int) :: cols
        ff_decoder_counts = decoders(d)%row_count(rows)
        if (ff_decoder_counts == ODC_SUCCESS) ff_decoder_counts = decoders(d)%column_count(cols)
    end function

    ! every step-th row of an array of the dimensions n1, n2
    integer(c_int) function ff_decoder_set_data(d, data, n1, n2, step, column_major) bind(c)
        integer(c_int), value :: d, n1, n2, step
        type(c_ptr), value :: data
        integer(c_int), optional, intent(in) :: column_major
        real(dp), pointer :: array(:,:)
        logical, target :: l
        logical, pointer :: a
        nullify(a)
        if (present(column_major)) then
            l = column_major /= 0
            a => l
        end if
        call c_f_pointer(data, array, [n1, n2])
        ff_decoder_set_data = decoders(d)%set_data(array(::step, :), a)
    end function

    integer(c_int) function ff_decoder_data(d, data, n1, n2, column_major) bind(c)
        integer(c_int), value :: d
        type(c_ptr), optional, intent(out) :: data
        integer(c_int), intent(out) :: n1, n2
        integer(c_int), optional, intent(out) :: column_major
        real(dp), pointer :: array(:,:)
        logical, target :: l
        logical, pointer :: a
        nullify(a)
        l = .false.
        n1 = -1
        n2 = -1
        if (present(column_major)) a => l
        if (present(data)) then
            ff_decoder_data = decoders(d)%data(array, a)
            if (ff_decoder_data == ODC_SUCCESS) then
                data = c_loc(array(1, 1))
                n1 = size(array, 1)
                n2 = size(array, 2)
            end if
        else
            ff_decoder_data = decoders(d)%data(column_major=a)
        end if
        if (present(column_major)) column_major = merge(1, 0, l)
    end function

    integer(c_int) function ff_decoder_add(d, name, l) bind(c)
        integer(c_int), value :: d, l
        type(c_ptr), value :: name
        ff_decoder_add = decoders(d)%add_column(text(name, l))
    end function

    integer(c_int) function ff_decoder_size(d, c, bytes) bind(c)
        integer(c_int), value :: d, c, bytes
        ff_decoder_size = decoders(d)%column_set_data_size(c, bytes)
    end function

    integer(c_int) function ff_decoder_set_column(d, c, bytes, stride, data) bind(c)
        integer(c_int), value :: d, c
        integer(c_int), optional, intent(in) :: bytes, stride
        type(c_ptr), value :: data
        if (c_associated(data)) then
            ff_decoder_set_column = decoders(d)%column_set_data_array(c, bytes, stride, data)
        else
            ff_decoder_set_column = decoders(d)%column_set_data_array(c, bytes, stride)
        end if
    end function

    integer(c_int) function ff_decoder_column(d, c, bytes, doubles, stride, data) bind(c)
        integer(c_int), value :: d, c
        integer(c_int), optional, intent(out) :: bytes, doubles, stride
        type(c_ptr), optional, intent(out) :: data
        ff_decoder_column = decoders(d)%column_data_array(c, bytes, doubles, stride, data)
    end function

    integer(c_int) function ff_decode(d, f, rows, threads) bind(c)
        integer(c_int), value :: d, f
        integer(c_long) :: rows
        integer(c_int), optional, intent(in) :: threads
        ff_decode = decoders(d)%decode(frames(f), rows, threads)
    end function

    ! ---- encoders

    integer(c_int) function ff_encoder(e) bind(c)
        integer(c_int), value :: e
        ff_encoder = encoders(e)%initialise()
    end function

    integer(c_int) function ff_encoder_free(e) bind(c)
        integer(c_int), value :: e
        ff_encoder_free = encoders(e)%free()
    end function

    integer(c_int) function ff_encoder_rows(e, rows) bind(c)
        integer(c_int), value :: e
        integer(c_long), value :: rows
        ff_encoder_rows = encoders(e)%set_row_count(rows)
    end function

    integer(c_int) function ff_encoder_per_frame(e, rows) bind(c)
        integer(c_int), value :: e
        integer(c_long), value :: rows
        ff_encoder_per_frame = encoders(e)%set_rows_per_frame(rows)
    end function

    integer(c_int) function ff_encoder_data(e, data, n1, n2, step, column_major) bind(c)
        integer(c_int), value :: e, n1, n2, step
        type(c_ptr), value :: data
        integer(c_int), optional, intent(in) :: column_major
        real(dp), pointer :: array(:,:)
        logical, target :: l
        logical, pointer :: a
        nullify(a)
        if (present(column_major)) then
            l = column_major /= 0
            a => l
        end if
        call c_f_pointer(data, array, [n1, n2])
        ff_encoder_data = encoders(e)%set_data(array(::step, :), a)
    end function

    integer(c_int) function ff_encoder_add(e, name, l, type) bind(c)
        integer(c_int), value :: e, l, type
        type(c_ptr), value :: name
        ff_encoder_add = encoders(e)%add_column(text(name, l), type)
    end function

    integer(c_int) function ff_encoder_property(e, key, lk, val, lv) bind(c)
        integer(c_int), value :: e, lk, lv
        type(c_ptr), value :: key, val
        ff_encoder_property = encoders(e)%add_property(text(key, lk), text(val, lv))
    end function

    integer(c_int) function ff_encoder_size(e, c, bytes, doubles) bind(c)
        integer(c_int), value :: e, c
        integer(c_int), optional, intent(in) :: bytes, doubles
        ff_encoder_size = encoders(e)%column_set_data_size(c, bytes, doubles)
    end function

    integer(c_int) function ff_encoder_column(e, c, bytes, doubles, stride, data) bind(c)
        integer(c_int), value :: e, c
        integer(c_int), optional, intent(in) :: bytes, doubles, stride
        type(c_ptr), value :: data
        if (c_associated(data)) then
            ff_encoder_column = encoders(e)%column_set_data_array(c, bytes, doubles, stride, data)
        else
            ff_encoder_column = encoders(e)%column_set_data_array(c, bytes, doubles, stride)
        end if
    end function

    integer(c_int) function ff_encoder_bits(e, c, name, l, bits) bind(c)
        integer(c_int), value :: e, c, l, bits
        type(c_ptr), value :: name
        ff_encoder_bits = encoders(e)%column_add_bitfield(c, text(name, l), bits)
    end function

    ! with the action 'readwrite' or 'read' (where nothing can be written)
    integer(c_int) function ff_encode(e, p, l, readonly, bytes) bind(c)
        integer(c_int), value :: e, l, readonly
        type(c_ptr), value :: p
        integer(c_long) :: bytes
        integer :: unit
        if (readonly /= 0) then
            open(newunit=unit, file=text(p, l), access='stream', form='unformatted', action='read')
        else
            open(newunit=unit, file=text(p, l), access='stream', form='unformatted', status='replace')
        end if
        ff_encode = encoders(e)%encode(unit, bytes)
        close(unit)
    end function

end module

! C entry points to the legacy Fortran interface (odc_c_binding), for c25.cc: each passes its arguments on.
module f25
    use, intrinsic :: iso_c_binding
    use odc_c_binding
    implicit none
    private
contains
    function fl_type(k) bind(C, name='fl_type')
        integer(kind=C_INT), value :: k
        integer(kind=C_INT) :: fl_type
        integer :: types(6) = [ODB_IGNORE, ODB_INTEGER, ODB_REAL, ODB_STRING, ODB_BITFIELD, ODB_DOUBLE]
        fl_type = types(k + 1)
    end function
    function fl_odb_count(filename) bind(C)
        character(kind=C_CHAR),dimension(*) :: filename
        real(kind=C_DOUBLE) :: fl_odb_count
        fl_odb_count = odb_count(filename)
    end function
    function fl_odb_select_create(config, err) bind(C)
        character(kind=C_CHAR),dimension(*) :: config
        integer(kind=C_INT) :: err
        type(C_PTR) :: fl_odb_select_create
        fl_odb_select_create = odb_select_new(config, err)
    end function
    function fl_odb_select_destroy(odb) bind(C)
        type(C_PTR),VALUE :: odb
        integer(kind=C_INT) :: fl_odb_select_destroy
        fl_odb_select_destroy = odb_select_delete(odb)
    end function
    function fl_odb_read_create(config, err) bind(C)
        character(kind=C_CHAR),dimension(*) :: config
        integer(kind=C_INT) :: err
        type(C_PTR) :: fl_odb_read_create
        fl_odb_read_create = odb_read_new(config, err)
    end function
    function fl_odb_read_destroy(odb) bind(C)
        type(C_PTR),VALUE :: odb
        integer(kind=C_INT) :: fl_odb_read_destroy
        fl_odb_read_destroy = odb_read_delete(odb)
    end function
    function fl_odb_create_read_iterator(odb, filename, err) bind(C)
        type(C_PTR), VALUE :: odb
        character(kind=C_CHAR),dimension(*) :: filename
        integer(kind=C_INT) :: err
        type(C_PTR) :: fl_odb_create_read_iterator
        fl_odb_create_read_iterator = odb_read_iterator_new(odb, filename, err)
    end function
    function fl_odb_read_iterator_destroy(odb_iterator) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT) :: fl_odb_read_iterator_destroy
        fl_odb_read_iterator_destroy = odb_read_iterator_delete(odb_iterator)
    end function
    function fl_odb_read_iterator_get_no_of_columns(odb_iterator, ncols) bind(C)
        type(C_PTR),VALUE :: odb_iterator
        integer(kind=C_INT) :: ncols
        integer(kind=C_INT) :: fl_odb_read_iterator_get_no_of_columns
        fl_odb_read_iterator_get_no_of_columns = odb_read_get_no_of_columns(odb_iterator, ncols)
    end function
    function fl_odb_read_iterator_get_column_type(odb_iterator, n, type) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT),VALUE :: n
        integer(kind=C_INT) :: type
        integer(kind=C_INT) :: fl_odb_read_iterator_get_column_type
        fl_odb_read_iterator_get_column_type = odb_read_get_column_type(odb_iterator, n, type)
    end function
    function fl_odb_read_iterator_get_column_name(odb_iterator, n, colname, nchar) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT), VALUE :: n
        type(C_PTR) :: colname
        integer(kind=C_INT) :: nchar
        integer(kind=C_INT) :: fl_odb_read_iterator_get_column_name
        fl_odb_read_iterator_get_column_name = odb_read_get_column_name(odb_iterator, n, colname, nchar)
    end function
    function fl_odb_read_iterator_get_bitfield(odb_iterator, n, bitfield_names, bitfield_sizes, bitfield_names_size, &
            bitfield_sizes_size) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT), VALUE :: n
        type(C_PTR) :: bitfield_names
        type(C_PTR) :: bitfield_sizes
        integer(kind=C_INT) :: bitfield_names_size
        integer(kind=C_INT) :: bitfield_sizes_size
        integer(kind=C_INT) :: fl_odb_read_iterator_get_bitfield
        fl_odb_read_iterator_get_bitfield = odb_read_get_bitfield(&
            odb_iterator, n, bitfield_names, bitfield_sizes, bitfield_names_size, bitfield_sizes_size)
    end function
    function fl_odb_read_iterator_get_next_row(odb_iterator, count, data, new_dataset) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT), VALUE :: count
        real(kind=C_DOUBLE),dimension(*) :: data
        integer(kind=C_INT) :: new_dataset
        integer(kind=C_INT) :: fl_odb_read_iterator_get_next_row
        fl_odb_read_iterator_get_next_row = odb_read_get_next_row(odb_iterator, count, data, new_dataset)
    end function
    function fl_odb_read_iterator_get_missing_value(odb_iterator, n, v) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT),VALUE :: n
        real(kind=C_DOUBLE) :: v
        integer(kind=C_INT) :: fl_odb_read_iterator_get_missing_value
        fl_odb_read_iterator_get_missing_value = odb_read_get_missing_value(odb_iterator, n, v)
    end function
    function fl_odb_read_iterator_get_row_buffer_size_doubles(odb_iterator, sz) bind(C)
        type(c_ptr), value :: odb_iterator
        integer(kind=c_int) :: sz
        integer(kind=c_int) :: fl_odb_read_iterator_get_row_buffer_size_doubles
        fl_odb_read_iterator_get_row_buffer_size_doubles = odb_read_get_row_buffer_size_doubles(odb_iterator, sz)
    end function
    function fl_odb_read_iterator_get_column_offset(odb_iterator, n, offset) bind(C)
        type(c_ptr), value :: odb_iterator
        integer(kind=c_int), value :: n
        integer(kind=c_int) :: offset
        integer(kind=c_int) :: fl_odb_read_iterator_get_column_offset
        fl_odb_read_iterator_get_column_offset = odb_read_get_column_offset(odb_iterator, n, offset)
    end function
    function fl_odb_read_iterator_get_column_size_doubles(odb_iterator, n, sz) bind(C)
        type(c_ptr), value :: odb_iterator
        integer(kind=c_int), value :: n
        integer(kind=c_int) :: sz
        integer(kind=c_int) :: fl_odb_read_iterator_get_column_size_doubles
        fl_odb_read_iterator_get_column_size_doubles = odb_read_get_column_size_doubles(odb_iterator, n, sz)
    end function
    function fl_odb_create_select_iterator(odb, sql, err) bind(C)
        type(C_PTR), VALUE :: odb
        character(kind=C_CHAR),dimension(*) :: sql
        integer(kind=C_INT) :: err
        type(C_PTR) :: fl_odb_create_select_iterator
        fl_odb_create_select_iterator = odb_select_iterator_new(odb, sql, err)
    end function
    function fl_odb_create_select_iterator_from_file(odb, sql, filename, err) bind(C)
        type(C_PTR), VALUE :: odb
        character(kind=C_CHAR),dimension(*) :: sql
        character(kind=C_CHAR),dimension(*) :: filename
        integer(kind=C_INT) :: err
        type(C_PTR) :: fl_odb_create_select_iterator_from_file
        fl_odb_create_select_iterator_from_file = odb_select_iterator_new_from_file(odb, sql, filename, err)
    end function
    function fl_odb_select_iterator_destroy(odb_iterator) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT) :: fl_odb_select_iterator_destroy
        fl_odb_select_iterator_destroy = odb_select_iterator_delete(odb_iterator)
    end function
    function fl_odb_select_iterator_get_no_of_columns(odb_iterator, ncols) bind(C)
        type(C_PTR),VALUE :: odb_iterator
        integer(kind=C_INT) :: ncols
        integer(kind=C_INT) :: fl_odb_select_iterator_get_no_of_columns
        fl_odb_select_iterator_get_no_of_columns = odb_select_get_no_of_columns(odb_iterator, ncols)
    end function
    function fl_odb_select_iterator_get_row_buffer_size_doubles(odb_iterator, sz) bind(C)
        type(c_ptr), value :: odb_iterator
        integer(kind=c_int) :: sz
        integer(kind=c_int) :: fl_odb_select_iterator_get_row_buffer_size_doubles
        fl_odb_select_iterator_get_row_buffer_size_doubles = odb_select_get_row_buffer_size_doubles(odb_iterator, sz)
    end function
    function fl_odb_select_iterator_get_column_offset(odb_iterator, n, offset) bind(C)
        type(c_ptr), value :: odb_iterator
        integer(kind=c_int), value :: n
        integer(kind=c_int) :: offset
        integer(kind=c_int) :: fl_odb_select_iterator_get_column_offset
        fl_odb_select_iterator_get_column_offset = odb_select_get_column_offset(odb_iterator, n, offset)
    end function
    function fl_odb_select_iterator_get_column_size_doubles(odb_iterator, n, sz) bind(C)
        type(c_ptr), value :: odb_iterator
        integer(kind=c_int), value :: n
        integer(kind=c_int) :: sz
        integer(kind=c_int) :: fl_odb_select_iterator_get_column_size_doubles
        fl_odb_select_iterator_get_column_size_doubles = odb_select_get_column_size_doubles(odb_iterator, n, sz)
    end function
    function fl_odb_select_iterator_get_missing_value(odb_iterator, n, v) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT),VALUE :: n
        real(kind=C_DOUBLE) :: v
        integer(kind=C_INT) :: fl_odb_select_iterator_get_missing_value
        fl_odb_select_iterator_get_missing_value = odb_select_get_missing_value(odb_iterator, n, v)
    end function
    function fl_odb_select_iterator_get_column_type(odb_iterator, n, type) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT),VALUE :: n
        integer(kind=C_INT) :: type
        integer(kind=C_INT) :: fl_odb_select_iterator_get_column_type
        fl_odb_select_iterator_get_column_type = odb_select_get_column_type(odb_iterator, n, type)
    end function
    function fl_odb_select_iterator_get_column_name(odb_iterator, n, colname, nchar) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT), VALUE :: n
        type(C_PTR) :: colname
        integer(kind=C_INT) :: nchar
        integer(kind=C_INT) :: fl_odb_select_iterator_get_column_name
        fl_odb_select_iterator_get_column_name = odb_select_get_column_name(odb_iterator, n, colname, nchar)
    end function
    function fl_odb_select_iterator_get_bitfield(odb_iterator, n, bitfield_names, bitfield_sizes, bitfield_names_size, &
            bitfield_sizes_size) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT), VALUE :: n
        type(C_PTR) :: bitfield_names
        type(C_PTR) :: bitfield_sizes
        integer(kind=C_INT) :: bitfield_names_size
        integer(kind=C_INT) :: bitfield_sizes_size
        integer(kind=C_INT) :: fl_odb_select_iterator_get_bitfield
        fl_odb_select_iterator_get_bitfield = odb_select_get_bitfield(&
            odb_iterator, n, bitfield_names, bitfield_sizes, bitfield_names_size, bitfield_sizes_size)
    end function
    function fl_odb_select_iterator_get_next_row(odb_iterator, count, data, new_dataset) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT), VALUE :: count
        real(kind=C_DOUBLE),dimension(*) :: data
        integer(kind=C_INT) :: new_dataset
        integer(kind=C_INT) :: fl_odb_select_iterator_get_next_row
        fl_odb_select_iterator_get_next_row = odb_select_get_next_row(odb_iterator, count, data, new_dataset)
    end function
    function fl_odb_writer_create(config, err) bind(C)
        character(kind=C_CHAR),dimension(*) :: config
        integer(kind=C_INT) :: err
        type(C_PTR) :: fl_odb_writer_create
        fl_odb_writer_create = odb_write_new(config, err)
    end function
    function fl_odb_writer_destroy(odb) bind(C)
        type(C_PTR),VALUE :: odb
        integer(kind=C_INT) :: fl_odb_writer_destroy
        fl_odb_writer_destroy = odb_write_delete(odb)
    end function
    function fl_odb_create_write_iterator(odb, filename, err) bind(C)
        type(C_PTR), VALUE :: odb
        character(kind=C_CHAR),dimension(*) :: filename
        integer(kind=C_INT) :: err
        type(C_PTR) :: fl_odb_create_write_iterator
        fl_odb_create_write_iterator = odb_write_iterator_new(odb, filename, err)
    end function
    function fl_odb_create_append_iterator(odb, filename, err) bind(C)
        type(C_PTR), VALUE :: odb
        character(kind=C_CHAR),dimension(*) :: filename
        integer(kind=C_INT) :: err
        type(C_PTR) :: fl_odb_create_append_iterator
        fl_odb_create_append_iterator = odb_append_iterator_new(odb, filename, err)
    end function
    function fl_odb_write_iterator_destroy(odb_iterator) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT) :: fl_odb_write_iterator_destroy
        fl_odb_write_iterator_destroy = odb_write_iterator_delete(odb_iterator)
    end function
    function fl_odb_write_iterator_set_no_of_columns(odb_iterator, ncols) bind(C)
        type(C_PTR),VALUE :: odb_iterator
        integer(kind=C_INT), VALUE :: ncols
        integer(kind=C_INT) :: fl_odb_write_iterator_set_no_of_columns
        fl_odb_write_iterator_set_no_of_columns = odb_write_set_no_of_columns(odb_iterator, ncols)
    end function
    function fl_odb_write_iterator_set_column(odb_iterator, n, type, colname) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT),VALUE :: n
        integer(kind=C_INT),VALUE :: type
        character(kind=C_CHAR),dimension(*) :: colname
        integer(kind=C_INT) :: fl_odb_write_iterator_set_column
        fl_odb_write_iterator_set_column = odb_write_set_column(odb_iterator, n, type, colname)
    end function
    function fl_odb_write_iterator_set_bitfield(odb_iterator, n, type, colname, bitfield_names, bitfield_sizes) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT),VALUE :: n
        integer(kind=C_INT),VALUE :: type
        character(kind=C_CHAR),dimension(*) :: colname
        character(kind=C_CHAR),dimension(*) :: bitfield_names
        character(kind=C_CHAR),dimension(*) :: bitfield_sizes
        integer(kind=C_INT) :: fl_odb_write_iterator_set_bitfield
        fl_odb_write_iterator_set_bitfield = odb_write_set_bitfield(&
            odb_iterator, n, type, colname, bitfield_names, bitfield_sizes)
    end function
    function fl_odb_write_iterator_set_missing_value(odb_iterator, n, v) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT),VALUE :: n
        real(kind=C_DOUBLE),VALUE :: v
        integer(kind=C_INT) :: fl_odb_write_iterator_set_missing_value
        fl_odb_write_iterator_set_missing_value = odb_write_set_missing_value(odb_iterator, n, v)
    end function
    function fl_odb_write_iterator_set_column_size_doubles(odb_iterator, n, sz) bind(C)
        type(c_ptr), value :: odb_iterator
        integer(kind=c_int), value :: n
        integer(kind=c_int), value :: sz
        integer(kind=c_int) :: fl_odb_write_iterator_set_column_size_doubles
        fl_odb_write_iterator_set_column_size_doubles = odb_write_set_column_size_doubles(odb_iterator, n, sz)
    end function
    function fl_odb_write_iterator_get_row_buffer_size_doubles(odb_iterator, sz) bind(C)
        type(c_ptr), value :: odb_iterator
        integer(kind=c_int) :: sz
        integer(kind=c_int) :: fl_odb_write_iterator_get_row_buffer_size_doubles
        fl_odb_write_iterator_get_row_buffer_size_doubles = odb_write_get_row_buffer_size_doubles(odb_iterator, sz)
    end function
    function fl_odb_write_iterator_get_column_offset(odb_iterator, n, offset) bind(C)
        type(c_ptr), value :: odb_iterator
        integer(kind=c_int), value :: n
        integer(kind=c_int) :: offset
        integer(kind=c_int) :: fl_odb_write_iterator_get_column_offset
        fl_odb_write_iterator_get_column_offset = odb_write_get_column_offset(odb_iterator, n, offset)
    end function
    function fl_odb_write_iterator_set_next_row(odb_iterator, data, count) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        real(kind=C_DOUBLE),dimension(*) :: data
        integer(kind=C_INT), VALUE :: count
        integer(kind=C_INT) :: fl_odb_write_iterator_set_next_row
        fl_odb_write_iterator_set_next_row = odb_write_set_next_row(odb_iterator, data, count)
    end function
    function fl_odb_write_iterator_write_header(odb_iterator) bind(C)
        type(C_PTR), VALUE :: odb_iterator
        integer(kind=C_INT) :: fl_odb_write_iterator_write_header
        fl_odb_write_iterator_write_header = odb_write_header(odb_iterator)
    end function
end module

// Code generated by tools/genshim; DO NOT EDIT.

package syscall

import real "syscall"

const (
	AF_ALG                           = real.AF_ALG
	AF_APPLETALK                     = real.AF_APPLETALK
	AF_ASH                           = real.AF_ASH
	AF_ATMPVC                        = real.AF_ATMPVC
	AF_ATMSVC                        = real.AF_ATMSVC
	AF_AX25                          = real.AF_AX25
	AF_BLUETOOTH                     = real.AF_BLUETOOTH
	AF_BRIDGE                        = real.AF_BRIDGE
	AF_CAIF                          = real.AF_CAIF
	AF_CAN                           = real.AF_CAN
	AF_DECnet                        = real.AF_DECnet
	AF_ECONET                        = real.AF_ECONET
	AF_FILE                          = real.AF_FILE
	AF_IEEE802154                    = real.AF_IEEE802154
	AF_INET                          = real.AF_INET
	AF_INET6                         = real.AF_INET6
	AF_IPX                           = real.AF_IPX
	AF_IRDA                          = real.AF_IRDA
	AF_ISDN                          = real.AF_ISDN
	AF_IUCV                          = real.AF_IUCV
	AF_KEY                           = real.AF_KEY
	AF_LLC                           = real.AF_LLC
	AF_LOCAL                         = real.AF_LOCAL
	AF_MAX                           = real.AF_MAX
	AF_NETBEUI                       = real.AF_NETBEUI
	AF_NETLINK                       = real.AF_NETLINK
	AF_NETROM                        = real.AF_NETROM
	AF_PACKET                        = real.AF_PACKET
	AF_PHONET                        = real.AF_PHONET
	AF_PPPOX                         = real.AF_PPPOX
	AF_RDS                           = real.AF_RDS
	AF_ROSE                          = real.AF_ROSE
	AF_ROUTE                         = real.AF_ROUTE
	AF_RXRPC                         = real.AF_RXRPC
	AF_SECURITY                      = real.AF_SECURITY
	AF_SNA                           = real.AF_SNA
	AF_TIPC                          = real.AF_TIPC
	AF_UNIX                          = real.AF_UNIX
	AF_UNSPEC                        = real.AF_UNSPEC
	AF_WANPIPE                       = real.AF_WANPIPE
	AF_X25                           = real.AF_X25
	ARPHRD_ADAPT                     = real.ARPHRD_ADAPT
	ARPHRD_APPLETLK                  = real.ARPHRD_APPLETLK
	ARPHRD_ARCNET                    = real.ARPHRD_ARCNET
	ARPHRD_ASH                       = real.ARPHRD_ASH
	ARPHRD_ATM                       = real.ARPHRD_ATM
	ARPHRD_AX25                      = real.ARPHRD_AX25
	ARPHRD_BIF                       = real.ARPHRD_BIF
	ARPHRD_CHAOS                     = real.ARPHRD_CHAOS
	ARPHRD_CISCO                     = real.ARPHRD_CISCO
	ARPHRD_CSLIP                     = real.ARPHRD_CSLIP
	ARPHRD_CSLIP6                    = real.ARPHRD_CSLIP6
	ARPHRD_DDCMP                     = real.ARPHRD_DDCMP
	ARPHRD_DLCI                      = real.ARPHRD_DLCI
	ARPHRD_ECONET                    = real.ARPHRD_ECONET
	ARPHRD_EETHER                    = real.ARPHRD_EETHER
	ARPHRD_ETHER                     = real.ARPHRD_ETHER
	ARPHRD_EUI64                     = real.ARPHRD_EUI64
	ARPHRD_FCAL                      = real.ARPHRD_FCAL
	ARPHRD_FCFABRIC                  = real.ARPHRD_FCFABRIC
	ARPHRD_FCPL                      = real.ARPHRD_FCPL
	ARPHRD_FCPP                      = real.ARPHRD_FCPP
	ARPHRD_FDDI                      = real.ARPHRD_FDDI
	ARPHRD_FRAD                      = real.ARPHRD_FRAD
	ARPHRD_HDLC                      = real.ARPHRD_HDLC
	ARPHRD_HIPPI                     = real.ARPHRD_HIPPI
	ARPHRD_HWX25                     = real.ARPHRD_HWX25
	ARPHRD_IEEE1394                  = real.ARPHRD_IEEE1394
	ARPHRD_IEEE802                   = real.ARPHRD_IEEE802
	ARPHRD_IEEE80211                 = real.ARPHRD_IEEE80211
	ARPHRD_IEEE80211_PRISM           = real.ARPHRD_IEEE80211_PRISM
	ARPHRD_IEEE80211_RADIOTAP        = real.ARPHRD_IEEE80211_RADIOTAP
	ARPHRD_IEEE802154                = real.ARPHRD_IEEE802154
	ARPHRD_IEEE802154_PHY            = real.ARPHRD_IEEE802154_PHY
	ARPHRD_IEEE802_TR                = real.ARPHRD_IEEE802_TR
	ARPHRD_INFINIBAND                = real.ARPHRD_INFINIBAND
	ARPHRD_IPDDP                     = real.ARPHRD_IPDDP
	ARPHRD_IPGRE                     = real.ARPHRD_IPGRE
	ARPHRD_IRDA                      = real.ARPHRD_IRDA
	ARPHRD_LAPB                      = real.ARPHRD_LAPB
	ARPHRD_LOCALTLK                  = real.ARPHRD_LOCALTLK
	ARPHRD_LOOPBACK                  = real.ARPHRD_LOOPBACK
	ARPHRD_METRICOM                  = real.ARPHRD_METRICOM
	ARPHRD_NETROM                    = real.ARPHRD_NETROM
	ARPHRD_NONE                      = real.ARPHRD_NONE
	ARPHRD_PIMREG                    = real.ARPHRD_PIMREG
	ARPHRD_PPP                       = real.ARPHRD_PPP
	ARPHRD_PRONET                    = real.ARPHRD_PRONET
	ARPHRD_RAWHDLC                   = real.ARPHRD_RAWHDLC
	ARPHRD_ROSE                      = real.ARPHRD_ROSE
	ARPHRD_RSRVD                     = real.ARPHRD_RSRVD
	ARPHRD_SIT                       = real.ARPHRD_SIT
	ARPHRD_SKIP                      = real.ARPHRD_SKIP
	ARPHRD_SLIP                      = real.ARPHRD_SLIP
	ARPHRD_SLIP6                     = real.ARPHRD_SLIP6
	ARPHRD_TUNNEL                    = real.ARPHRD_TUNNEL
	ARPHRD_TUNNEL6                   = real.ARPHRD_TUNNEL6
	ARPHRD_VOID                      = real.ARPHRD_VOID
	ARPHRD_X25                       = real.ARPHRD_X25
	B0                               = real.B0
	B1000000                         = real.B1000000
	B110                             = real.B110
	B115200                          = real.B115200
	B1152000                         = real.B1152000
	B1200                            = real.B1200
	B134                             = real.B134
	B150                             = real.B150
	B1500000                         = real.B1500000
	B1800                            = real.B1800
	B19200                           = real.B19200
	B200                             = real.B200
	B2000000                         = real.B2000000
	B230400                          = real.B230400
	B2400                            = real.B2400
	B2500000                         = real.B2500000
	B300                             = real.B300
	B3000000                         = real.B3000000
	B3500000                         = real.B3500000
	B38400                           = real.B38400
	B4000000                         = real.B4000000
	B460800                          = real.B460800
	B4800                            = real.B4800
	B50                              = real.B50
	B500000                          = real.B500000
	B57600                           = real.B57600
	B576000                          = real.B576000
	B600                             = real.B600
	B75                              = real.B75
	B921600                          = real.B921600
	B9600                            = real.B9600
	BPF_A                            = real.BPF_A
	BPF_ABS                          = real.BPF_ABS
	BPF_ADD                          = real.BPF_ADD
	BPF_ALU                          = real.BPF_ALU
	BPF_AND                          = real.BPF_AND
	BPF_B                            = real.BPF_B
	BPF_DIV                          = real.BPF_DIV
	BPF_H                            = real.BPF_H
	BPF_IMM                          = real.BPF_IMM
	BPF_IND                          = real.BPF_IND
	BPF_JA                           = real.BPF_JA
	BPF_JEQ                          = real.BPF_JEQ
	BPF_JGE                          = real.BPF_JGE
	BPF_JGT                          = real.BPF_JGT
	BPF_JMP                          = real.BPF_JMP
	BPF_JSET                         = real.BPF_JSET
	BPF_K                            = real.BPF_K
	BPF_LD                           = real.BPF_LD
	BPF_LDX                          = real.BPF_LDX
	BPF_LEN                          = real.BPF_LEN
	BPF_LSH                          = real.BPF_LSH
	BPF_MAJOR_VERSION                = real.BPF_MAJOR_VERSION
	BPF_MAXINSNS                     = real.BPF_MAXINSNS
	BPF_MEM                          = real.BPF_MEM
	BPF_MEMWORDS                     = real.BPF_MEMWORDS
	BPF_MINOR_VERSION                = real.BPF_MINOR_VERSION
	BPF_MISC                         = real.BPF_MISC
	BPF_MSH                          = real.BPF_MSH
	BPF_MUL                          = real.BPF_MUL
	BPF_NEG                          = real.BPF_NEG
	BPF_OR                           = real.BPF_OR
	BPF_RET                          = real.BPF_RET
	BPF_RSH                          = real.BPF_RSH
	BPF_ST                           = real.BPF_ST
	BPF_STX                          = real.BPF_STX
	BPF_SUB                          = real.BPF_SUB
	BPF_TAX                          = real.BPF_TAX
	BPF_TXA                          = real.BPF_TXA
	BPF_W                            = real.BPF_W
	BPF_X                            = real.BPF_X
	BRKINT                           = real.BRKINT
	CLOCAL                           = real.CLOCAL
	CLONE_CHILD_CLEARTID             = real.CLONE_CHILD_CLEARTID
	CLONE_CHILD_SETTID               = real.CLONE_CHILD_SETTID
	CLONE_CLEAR_SIGHAND              = real.CLONE_CLEAR_SIGHAND
	CLONE_DETACHED                   = real.CLONE_DETACHED
	CLONE_FILES                      = real.CLONE_FILES
	CLONE_FS                         = real.CLONE_FS
	CLONE_INTO_CGROUP                = real.CLONE_INTO_CGROUP
	CLONE_IO                         = real.CLONE_IO
	CLONE_NEWCGROUP                  = real.CLONE_NEWCGROUP
	CLONE_NEWIPC                     = real.CLONE_NEWIPC
	CLONE_NEWNET                     = real.CLONE_NEWNET
	CLONE_NEWNS                      = real.CLONE_NEWNS
	CLONE_NEWPID                     = real.CLONE_NEWPID
	CLONE_NEWTIME                    = real.CLONE_NEWTIME
	CLONE_NEWUSER                    = real.CLONE_NEWUSER
	CLONE_NEWUTS                     = real.CLONE_NEWUTS
	CLONE_PARENT                     = real.CLONE_PARENT
	CLONE_PARENT_SETTID              = real.CLONE_PARENT_SETTID
	CLONE_PIDFD                      = real.CLONE_PIDFD
	CLONE_PTRACE                     = real.CLONE_PTRACE
	CLONE_SETTLS                     = real.CLONE_SETTLS
	CLONE_SIGHAND                    = real.CLONE_SIGHAND
	CLONE_SYSVSEM                    = real.CLONE_SYSVSEM
	CLONE_THREAD                     = real.CLONE_THREAD
	CLONE_UNTRACED                   = real.CLONE_UNTRACED
	CLONE_VFORK                      = real.CLONE_VFORK
	CLONE_VM                         = real.CLONE_VM
	CREAD                            = real.CREAD
	CS5                              = real.CS5
	CS6                              = real.CS6
	CS7                              = real.CS7
	CS8                              = real.CS8
	CSIZE                            = real.CSIZE
	CSTOPB                           = real.CSTOPB
	DT_BLK                           = real.DT_BLK
	DT_CHR                           = real.DT_CHR
	DT_DIR                           = real.DT_DIR
	DT_FIFO                          = real.DT_FIFO
	DT_LNK                           = real.DT_LNK
	DT_REG                           = real.DT_REG
	DT_SOCK                          = real.DT_SOCK
	DT_UNKNOWN                       = real.DT_UNKNOWN
	DT_WHT                           = real.DT_WHT
	E2BIG                            = real.E2BIG
	EACCES                           = real.EACCES
	EADDRINUSE                       = real.EADDRINUSE
	EADDRNOTAVAIL                    = real.EADDRNOTAVAIL
	EADV                             = real.EADV
	EAFNOSUPPORT                     = real.EAFNOSUPPORT
	EAGAIN                           = real.EAGAIN
	EALREADY                         = real.EALREADY
	EBADE                            = real.EBADE
	EBADF                            = real.EBADF
	EBADFD                           = real.EBADFD
	EBADMSG                          = real.EBADMSG
	EBADR                            = real.EBADR
	EBADRQC                          = real.EBADRQC
	EBADSLT                          = real.EBADSLT
	EBFONT                           = real.EBFONT
	EBUSY                            = real.EBUSY
	ECANCELED                        = real.ECANCELED
	ECHILD                           = real.ECHILD
	ECHO                             = real.ECHO
	ECHOCTL                          = real.ECHOCTL
	ECHOE                            = real.ECHOE
	ECHOK                            = real.ECHOK
	ECHOKE                           = real.ECHOKE
	ECHONL                           = real.ECHONL
	ECHOPRT                          = real.ECHOPRT
	ECHRNG                           = real.ECHRNG
	ECOMM                            = real.ECOMM
	ECONNABORTED                     = real.ECONNABORTED
	ECONNREFUSED                     = real.ECONNREFUSED
	ECONNRESET                       = real.ECONNRESET
	EDEADLK                          = real.EDEADLK
	EDEADLOCK                        = real.EDEADLOCK
	EDESTADDRREQ                     = real.EDESTADDRREQ
	EDOM                             = real.EDOM
	EDOTDOT                          = real.EDOTDOT
	EDQUOT                           = real.EDQUOT
	EEXIST                           = real.EEXIST
	EFAULT                           = real.EFAULT
	EFBIG                            = real.EFBIG
	EHOSTDOWN                        = real.EHOSTDOWN
	EHOSTUNREACH                     = real.EHOSTUNREACH
	EIDRM                            = real.EIDRM
	EILSEQ                           = real.EILSEQ
	EINPROGRESS                      = real.EINPROGRESS
	EINTR                            = real.EINTR
	EINVAL                           = real.EINVAL
	EIO                              = real.EIO
	EISCONN                          = real.EISCONN
	EISDIR                           = real.EISDIR
	EISNAM                           = real.EISNAM
	EKEYEXPIRED                      = real.EKEYEXPIRED
	EKEYREJECTED                     = real.EKEYREJECTED
	EKEYREVOKED                      = real.EKEYREVOKED
	EL2HLT                           = real.EL2HLT
	EL2NSYNC                         = real.EL2NSYNC
	EL3HLT                           = real.EL3HLT
	EL3RST                           = real.EL3RST
	ELIBACC                          = real.ELIBACC
	ELIBBAD                          = real.ELIBBAD
	ELIBEXEC                         = real.ELIBEXEC
	ELIBMAX                          = real.ELIBMAX
	ELIBSCN                          = real.ELIBSCN
	ELNRNG                           = real.ELNRNG
	ELOOP                            = real.ELOOP
	EMEDIUMTYPE                      = real.EMEDIUMTYPE
	EMFILE                           = real.EMFILE
	EMLINK                           = real.EMLINK
	EMSGSIZE                         = real.EMSGSIZE
	EMULTIHOP                        = real.EMULTIHOP
	ENAMETOOLONG                     = real.ENAMETOOLONG
	ENAVAIL                          = real.ENAVAIL
	ENETDOWN                         = real.ENETDOWN
	ENETRESET                        = real.ENETRESET
	ENETUNREACH                      = real.ENETUNREACH
	ENFILE                           = real.ENFILE
	ENOANO                           = real.ENOANO
	ENOBUFS                          = real.ENOBUFS
	ENOCSI                           = real.ENOCSI
	ENODATA                          = real.ENODATA
	ENODEV                           = real.ENODEV
	ENOENT                           = real.ENOENT
	ENOEXEC                          = real.ENOEXEC
	ENOKEY                           = real.ENOKEY
	ENOLCK                           = real.ENOLCK
	ENOLINK                          = real.ENOLINK
	ENOMEDIUM                        = real.ENOMEDIUM
	ENOMEM                           = real.ENOMEM
	ENOMSG                           = real.ENOMSG
	ENONET                           = real.ENONET
	ENOPKG                           = real.ENOPKG
	ENOPROTOOPT                      = real.ENOPROTOOPT
	ENOSPC                           = real.ENOSPC
	ENOSR                            = real.ENOSR
	ENOSTR                           = real.ENOSTR
	ENOSYS                           = real.ENOSYS
	ENOTBLK                          = real.ENOTBLK
	ENOTCONN                         = real.ENOTCONN
	ENOTDIR                          = real.ENOTDIR
	ENOTEMPTY                        = real.ENOTEMPTY
	ENOTNAM                          = real.ENOTNAM
	ENOTRECOVERABLE                  = real.ENOTRECOVERABLE
	ENOTSOCK                         = real.ENOTSOCK
	ENOTSUP                          = real.ENOTSUP
	ENOTTY                           = real.ENOTTY
	ENOTUNIQ                         = real.ENOTUNIQ
	ENXIO                            = real.ENXIO
	EOPNOTSUPP                       = real.EOPNOTSUPP
	EOVERFLOW                        = real.EOVERFLOW
	EOWNERDEAD                       = real.EOWNERDEAD
	EPERM                            = real.EPERM
	EPFNOSUPPORT                     = real.EPFNOSUPPORT
	EPIPE                            = real.EPIPE
	EPOLLERR                         = real.EPOLLERR
	EPOLLET                          = real.EPOLLET
	EPOLLHUP                         = real.EPOLLHUP
	EPOLLIN                          = real.EPOLLIN
	EPOLLMSG                         = real.EPOLLMSG
	EPOLLONESHOT                     = real.EPOLLONESHOT
	EPOLLOUT                         = real.EPOLLOUT
	EPOLLPRI                         = real.EPOLLPRI
	EPOLLRDBAND                      = real.EPOLLRDBAND
	EPOLLRDHUP                       = real.EPOLLRDHUP
	EPOLLRDNORM                      = real.EPOLLRDNORM
	EPOLLWRBAND                      = real.EPOLLWRBAND
	EPOLLWRNORM                      = real.EPOLLWRNORM
	EPOLL_CLOEXEC                    = real.EPOLL_CLOEXEC
	EPOLL_CTL_ADD                    = real.EPOLL_CTL_ADD
	EPOLL_CTL_DEL                    = real.EPOLL_CTL_DEL
	EPOLL_CTL_MOD                    = real.EPOLL_CTL_MOD
	EPOLL_NONBLOCK                   = real.EPOLL_NONBLOCK
	EPROTO                           = real.EPROTO
	EPROTONOSUPPORT                  = real.EPROTONOSUPPORT
	EPROTOTYPE                       = real.EPROTOTYPE
	ERANGE                           = real.ERANGE
	EREMCHG                          = real.EREMCHG
	EREMOTE                          = real.EREMOTE
	EREMOTEIO                        = real.EREMOTEIO
	ERESTART                         = real.ERESTART
	ERFKILL                          = real.ERFKILL
	EROFS                            = real.EROFS
	ESHUTDOWN                        = real.ESHUTDOWN
	ESOCKTNOSUPPORT                  = real.ESOCKTNOSUPPORT
	ESPIPE                           = real.ESPIPE
	ESRCH                            = real.ESRCH
	ESRMNT                           = real.ESRMNT
	ESTALE                           = real.ESTALE
	ESTRPIPE                         = real.ESTRPIPE
	ETH_P_1588                       = real.ETH_P_1588
	ETH_P_8021Q                      = real.ETH_P_8021Q
	ETH_P_802_2                      = real.ETH_P_802_2
	ETH_P_802_3                      = real.ETH_P_802_3
	ETH_P_AARP                       = real.ETH_P_AARP
	ETH_P_ALL                        = real.ETH_P_ALL
	ETH_P_AOE                        = real.ETH_P_AOE
	ETH_P_ARCNET                     = real.ETH_P_ARCNET
	ETH_P_ARP                        = real.ETH_P_ARP
	ETH_P_ATALK                      = real.ETH_P_ATALK
	ETH_P_ATMFATE                    = real.ETH_P_ATMFATE
	ETH_P_ATMMPOA                    = real.ETH_P_ATMMPOA
	ETH_P_AX25                       = real.ETH_P_AX25
	ETH_P_BPQ                        = real.ETH_P_BPQ
	ETH_P_CAIF                       = real.ETH_P_CAIF
	ETH_P_CAN                        = real.ETH_P_CAN
	ETH_P_CONTROL                    = real.ETH_P_CONTROL
	ETH_P_CUST                       = real.ETH_P_CUST
	ETH_P_DDCMP                      = real.ETH_P_DDCMP
	ETH_P_DEC                        = real.ETH_P_DEC
	ETH_P_DIAG                       = real.ETH_P_DIAG
	ETH_P_DNA_DL                     = real.ETH_P_DNA_DL
	ETH_P_DNA_RC                     = real.ETH_P_DNA_RC
	ETH_P_DNA_RT                     = real.ETH_P_DNA_RT
	ETH_P_DSA                        = real.ETH_P_DSA
	ETH_P_ECONET                     = real.ETH_P_ECONET
	ETH_P_EDSA                       = real.ETH_P_EDSA
	ETH_P_FCOE                       = real.ETH_P_FCOE
	ETH_P_FIP                        = real.ETH_P_FIP
	ETH_P_HDLC                       = real.ETH_P_HDLC
	ETH_P_IEEE802154                 = real.ETH_P_IEEE802154
	ETH_P_IEEEPUP                    = real.ETH_P_IEEEPUP
	ETH_P_IEEEPUPAT                  = real.ETH_P_IEEEPUPAT
	ETH_P_IP                         = real.ETH_P_IP
	ETH_P_IPV6                       = real.ETH_P_IPV6
	ETH_P_IPX                        = real.ETH_P_IPX
	ETH_P_IRDA                       = real.ETH_P_IRDA
	ETH_P_LAT                        = real.ETH_P_LAT
	ETH_P_LINK_CTL                   = real.ETH_P_LINK_CTL
	ETH_P_LOCALTALK                  = real.ETH_P_LOCALTALK
	ETH_P_LOOP                       = real.ETH_P_LOOP
	ETH_P_MOBITEX                    = real.ETH_P_MOBITEX
	ETH_P_MPLS_MC                    = real.ETH_P_MPLS_MC
	ETH_P_MPLS_UC                    = real.ETH_P_MPLS_UC
	ETH_P_PAE                        = real.ETH_P_PAE
	ETH_P_PAUSE                      = real.ETH_P_PAUSE
	ETH_P_PHONET                     = real.ETH_P_PHONET
	ETH_P_PPPTALK                    = real.ETH_P_PPPTALK
	ETH_P_PPP_DISC                   = real.ETH_P_PPP_DISC
	ETH_P_PPP_MP                     = real.ETH_P_PPP_MP
	ETH_P_PPP_SES                    = real.ETH_P_PPP_SES
	ETH_P_PUP                        = real.ETH_P_PUP
	ETH_P_PUPAT                      = real.ETH_P_PUPAT
	ETH_P_RARP                       = real.ETH_P_RARP
	ETH_P_SCA                        = real.ETH_P_SCA
	ETH_P_SLOW                       = real.ETH_P_SLOW
	ETH_P_SNAP                       = real.ETH_P_SNAP
	ETH_P_TEB                        = real.ETH_P_TEB
	ETH_P_TIPC                       = real.ETH_P_TIPC
	ETH_P_TRAILER                    = real.ETH_P_TRAILER
	ETH_P_TR_802_2                   = real.ETH_P_TR_802_2
	ETH_P_WAN_PPP                    = real.ETH_P_WAN_PPP
	ETH_P_WCCP                       = real.ETH_P_WCCP
	ETH_P_X25                        = real.ETH_P_X25
	ETIME                            = real.ETIME
	ETIMEDOUT                        = real.ETIMEDOUT
	ETOOMANYREFS                     = real.ETOOMANYREFS
	ETXTBSY                          = real.ETXTBSY
	EUCLEAN                          = real.EUCLEAN
	EUNATCH                          = real.EUNATCH
	EUSERS                           = real.EUSERS
	EWOULDBLOCK                      = real.EWOULDBLOCK
	EXDEV                            = real.EXDEV
	EXFULL                           = real.EXFULL
	FD_CLOEXEC                       = real.FD_CLOEXEC
	FD_SETSIZE                       = real.FD_SETSIZE
	FLUSHO                           = real.FLUSHO
	F_DUPFD                          = real.F_DUPFD
	F_DUPFD_CLOEXEC                  = real.F_DUPFD_CLOEXEC
	F_EXLCK                          = real.F_EXLCK
	F_GETFD                          = real.F_GETFD
	F_GETFL                          = real.F_GETFL
	F_GETLEASE                       = real.F_GETLEASE
	F_GETLK                          = real.F_GETLK
	F_GETLK64                        = real.F_GETLK64
	F_GETOWN                         = real.F_GETOWN
	F_GETOWN_EX                      = real.F_GETOWN_EX
	F_GETPIPE_SZ                     = real.F_GETPIPE_SZ
	F_GETSIG                         = real.F_GETSIG
	F_LOCK                           = real.F_LOCK
	F_NOTIFY                         = real.F_NOTIFY
	F_OK                             = real.F_OK
	F_RDLCK                          = real.F_RDLCK
	F_SETFD                          = real.F_SETFD
	F_SETFL                          = real.F_SETFL
	F_SETLEASE                       = real.F_SETLEASE
	F_SETLK                          = real.F_SETLK
	F_SETLK64                        = real.F_SETLK64
	F_SETLKW                         = real.F_SETLKW
	F_SETLKW64                       = real.F_SETLKW64
	F_SETOWN                         = real.F_SETOWN
	F_SETOWN_EX                      = real.F_SETOWN_EX
	F_SETPIPE_SZ                     = real.F_SETPIPE_SZ
	F_SETSIG                         = real.F_SETSIG
	F_SHLCK                          = real.F_SHLCK
	F_TEST                           = real.F_TEST
	F_TLOCK                          = real.F_TLOCK
	F_ULOCK                          = real.F_ULOCK
	F_UNLCK                          = real.F_UNLCK
	F_WRLCK                          = real.F_WRLCK
	HUPCL                            = real.HUPCL
	ICANON                           = real.ICANON
	ICMPV6_FILTER                    = real.ICMPV6_FILTER
	ICRNL                            = real.ICRNL
	IEXTEN                           = real.IEXTEN
	IFA_ADDRESS                      = real.IFA_ADDRESS
	IFA_ANYCAST                      = real.IFA_ANYCAST
	IFA_BROADCAST                    = real.IFA_BROADCAST
	IFA_CACHEINFO                    = real.IFA_CACHEINFO
	IFA_F_DADFAILED                  = real.IFA_F_DADFAILED
	IFA_F_DEPRECATED                 = real.IFA_F_DEPRECATED
	IFA_F_HOMEADDRESS                = real.IFA_F_HOMEADDRESS
	IFA_F_NODAD                      = real.IFA_F_NODAD
	IFA_F_OPTIMISTIC                 = real.IFA_F_OPTIMISTIC
	IFA_F_PERMANENT                  = real.IFA_F_PERMANENT
	IFA_F_SECONDARY                  = real.IFA_F_SECONDARY
	IFA_F_TEMPORARY                  = real.IFA_F_TEMPORARY
	IFA_F_TENTATIVE                  = real.IFA_F_TENTATIVE
	IFA_LABEL                        = real.IFA_LABEL
	IFA_LOCAL                        = real.IFA_LOCAL
	IFA_MAX                          = real.IFA_MAX
	IFA_MULTICAST                    = real.IFA_MULTICAST
	IFA_UNSPEC                       = real.IFA_UNSPEC
	IFF_ALLMULTI                     = real.IFF_ALLMULTI
	IFF_AUTOMEDIA                    = real.IFF_AUTOMEDIA
	IFF_BROADCAST                    = real.IFF_BROADCAST
	IFF_DEBUG                        = real.IFF_DEBUG
	IFF_DYNAMIC                      = real.IFF_DYNAMIC
	IFF_LOOPBACK                     = real.IFF_LOOPBACK
	IFF_MASTER                       = real.IFF_MASTER
	IFF_MULTICAST                    = real.IFF_MULTICAST
	IFF_NOARP                        = real.IFF_NOARP
	IFF_NOTRAILERS                   = real.IFF_NOTRAILERS
	IFF_NO_PI                        = real.IFF_NO_PI
	IFF_ONE_QUEUE                    = real.IFF_ONE_QUEUE
	IFF_POINTOPOINT                  = real.IFF_POINTOPOINT
	IFF_PORTSEL                      = real.IFF_PORTSEL
	IFF_PROMISC                      = real.IFF_PROMISC
	IFF_RUNNING                      = real.IFF_RUNNING
	IFF_SLAVE                        = real.IFF_SLAVE
	IFF_TAP                          = real.IFF_TAP
	IFF_TUN                          = real.IFF_TUN
	IFF_TUN_EXCL                     = real.IFF_TUN_EXCL
	IFF_UP                           = real.IFF_UP
	IFF_VNET_HDR                     = real.IFF_VNET_HDR
	IFLA_ADDRESS                     = real.IFLA_ADDRESS
	IFLA_BROADCAST                   = real.IFLA_BROADCAST
	IFLA_COST                        = real.IFLA_COST
	IFLA_IFALIAS                     = real.IFLA_IFALIAS
	IFLA_IFNAME                      = real.IFLA_IFNAME
	IFLA_LINK                        = real.IFLA_LINK
	IFLA_LINKINFO                    = real.IFLA_LINKINFO
	IFLA_LINKMODE                    = real.IFLA_LINKMODE
	IFLA_MAP                         = real.IFLA_MAP
	IFLA_MASTER                      = real.IFLA_MASTER
	IFLA_MAX                         = real.IFLA_MAX
	IFLA_MTU                         = real.IFLA_MTU
	IFLA_NET_NS_PID                  = real.IFLA_NET_NS_PID
	IFLA_OPERSTATE                   = real.IFLA_OPERSTATE
	IFLA_PRIORITY                    = real.IFLA_PRIORITY
	IFLA_PROTINFO                    = real.IFLA_PROTINFO
	IFLA_QDISC                       = real.IFLA_QDISC
	IFLA_STATS                       = real.IFLA_STATS
	IFLA_TXQLEN                      = real.IFLA_TXQLEN
	IFLA_UNSPEC                      = real.IFLA_UNSPEC
	IFLA_WEIGHT                      = real.IFLA_WEIGHT
	IFLA_WIRELESS                    = real.IFLA_WIRELESS
	IFNAMSIZ                         = real.IFNAMSIZ
	IGNBRK                           = real.IGNBRK
	IGNCR                            = real.IGNCR
	IGNPAR                           = real.IGNPAR
	IMAXBEL                          = real.IMAXBEL
	INLCR                            = real.INLCR
	INPCK                            = real.INPCK
	IN_ACCESS                        = real.IN_ACCESS
	IN_ALL_EVENTS                    = real.IN_ALL_EVENTS
	IN_ATTRIB                        = real.IN_ATTRIB
	IN_CLASSA_HOST                   = real.IN_CLASSA_HOST
	IN_CLASSA_MAX                    = real.IN_CLASSA_MAX
	IN_CLASSA_NET                    = real.IN_CLASSA_NET
	IN_CLASSA_NSHIFT                 = real.IN_CLASSA_NSHIFT
	IN_CLASSB_HOST                   = real.IN_CLASSB_HOST
	IN_CLASSB_MAX                    = real.IN_CLASSB_MAX
	IN_CLASSB_NET                    = real.IN_CLASSB_NET
	IN_CLASSB_NSHIFT                 = real.IN_CLASSB_NSHIFT
	IN_CLASSC_HOST                   = real.IN_CLASSC_HOST
	IN_CLASSC_NET                    = real.IN_CLASSC_NET
	IN_CLASSC_NSHIFT                 = real.IN_CLASSC_NSHIFT
	IN_CLOEXEC                       = real.IN_CLOEXEC
	IN_CLOSE                         = real.IN_CLOSE
	IN_CLOSE_NOWRITE                 = real.IN_CLOSE_NOWRITE
	IN_CLOSE_WRITE                   = real.IN_CLOSE_WRITE
	IN_CREATE                        = real.IN_CREATE
	IN_DELETE                        = real.IN_DELETE
	IN_DELETE_SELF                   = real.IN_DELETE_SELF
	IN_DONT_FOLLOW                   = real.IN_DONT_FOLLOW
	IN_EXCL_UNLINK                   = real.IN_EXCL_UNLINK
	IN_IGNORED                       = real.IN_IGNORED
	IN_ISDIR                         = real.IN_ISDIR
	IN_LOOPBACKNET                   = real.IN_LOOPBACKNET
	IN_MASK_ADD                      = real.IN_MASK_ADD
	IN_MODIFY                        = real.IN_MODIFY
	IN_MOVE                          = real.IN_MOVE
	IN_MOVED_FROM                    = real.IN_MOVED_FROM
	IN_MOVED_TO                      = real.IN_MOVED_TO
	IN_MOVE_SELF                     = real.IN_MOVE_SELF
	IN_NONBLOCK                      = real.IN_NONBLOCK
	IN_ONESHOT                       = real.IN_ONESHOT
	IN_ONLYDIR                       = real.IN_ONLYDIR
	IN_OPEN                          = real.IN_OPEN
	IN_Q_OVERFLOW                    = real.IN_Q_OVERFLOW
	IN_UNMOUNT                       = real.IN_UNMOUNT
	IPPROTO_AH                       = real.IPPROTO_AH
	IPPROTO_COMP                     = real.IPPROTO_COMP
	IPPROTO_DCCP                     = real.IPPROTO_DCCP
	IPPROTO_DSTOPTS                  = real.IPPROTO_DSTOPTS
	IPPROTO_EGP                      = real.IPPROTO_EGP
	IPPROTO_ENCAP                    = real.IPPROTO_ENCAP
	IPPROTO_ESP                      = real.IPPROTO_ESP
	IPPROTO_FRAGMENT                 = real.IPPROTO_FRAGMENT
	IPPROTO_GRE                      = real.IPPROTO_GRE
	IPPROTO_HOPOPTS                  = real.IPPROTO_HOPOPTS
	IPPROTO_ICMP                     = real.IPPROTO_ICMP
	IPPROTO_ICMPV6                   = real.IPPROTO_ICMPV6
	IPPROTO_IDP                      = real.IPPROTO_IDP
	IPPROTO_IGMP                     = real.IPPROTO_IGMP
	IPPROTO_IP                       = real.IPPROTO_IP
	IPPROTO_IPIP                     = real.IPPROTO_IPIP
	IPPROTO_IPV6                     = real.IPPROTO_IPV6
	IPPROTO_MTP                      = real.IPPROTO_MTP
	IPPROTO_NONE                     = real.IPPROTO_NONE
	IPPROTO_PIM                      = real.IPPROTO_PIM
	IPPROTO_PUP                      = real.IPPROTO_PUP
	IPPROTO_RAW                      = real.IPPROTO_RAW
	IPPROTO_ROUTING                  = real.IPPROTO_ROUTING
	IPPROTO_RSVP                     = real.IPPROTO_RSVP
	IPPROTO_SCTP                     = real.IPPROTO_SCTP
	IPPROTO_TCP                      = real.IPPROTO_TCP
	IPPROTO_TP                       = real.IPPROTO_TP
	IPPROTO_UDP                      = real.IPPROTO_UDP
	IPPROTO_UDPLITE                  = real.IPPROTO_UDPLITE
	IPV6_2292DSTOPTS                 = real.IPV6_2292DSTOPTS
	IPV6_2292HOPLIMIT                = real.IPV6_2292HOPLIMIT
	IPV6_2292HOPOPTS                 = real.IPV6_2292HOPOPTS
	IPV6_2292PKTINFO                 = real.IPV6_2292PKTINFO
	IPV6_2292PKTOPTIONS              = real.IPV6_2292PKTOPTIONS
	IPV6_2292RTHDR                   = real.IPV6_2292RTHDR
	IPV6_ADDRFORM                    = real.IPV6_ADDRFORM
	IPV6_ADD_MEMBERSHIP              = real.IPV6_ADD_MEMBERSHIP
	IPV6_AUTHHDR                     = real.IPV6_AUTHHDR
	IPV6_CHECKSUM                    = real.IPV6_CHECKSUM
	IPV6_DROP_MEMBERSHIP             = real.IPV6_DROP_MEMBERSHIP
	IPV6_DSTOPTS                     = real.IPV6_DSTOPTS
	IPV6_HOPLIMIT                    = real.IPV6_HOPLIMIT
	IPV6_HOPOPTS                     = real.IPV6_HOPOPTS
	IPV6_IPSEC_POLICY                = real.IPV6_IPSEC_POLICY
	IPV6_JOIN_ANYCAST                = real.IPV6_JOIN_ANYCAST
	IPV6_JOIN_GROUP                  = real.IPV6_JOIN_GROUP
	IPV6_LEAVE_ANYCAST               = real.IPV6_LEAVE_ANYCAST
	IPV6_LEAVE_GROUP                 = real.IPV6_LEAVE_GROUP
	IPV6_MTU                         = real.IPV6_MTU
	IPV6_MTU_DISCOVER                = real.IPV6_MTU_DISCOVER
	IPV6_MULTICAST_HOPS              = real.IPV6_MULTICAST_HOPS
	IPV6_MULTICAST_IF                = real.IPV6_MULTICAST_IF
	IPV6_MULTICAST_LOOP              = real.IPV6_MULTICAST_LOOP
	IPV6_NEXTHOP                     = real.IPV6_NEXTHOP
	IPV6_PKTINFO                     = real.IPV6_PKTINFO
	IPV6_PMTUDISC_DO                 = real.IPV6_PMTUDISC_DO
	IPV6_PMTUDISC_DONT               = real.IPV6_PMTUDISC_DONT
	IPV6_PMTUDISC_PROBE              = real.IPV6_PMTUDISC_PROBE
	IPV6_PMTUDISC_WANT               = real.IPV6_PMTUDISC_WANT
	IPV6_RECVDSTOPTS                 = real.IPV6_RECVDSTOPTS
	IPV6_RECVERR                     = real.IPV6_RECVERR
	IPV6_RECVHOPLIMIT                = real.IPV6_RECVHOPLIMIT
	IPV6_RECVHOPOPTS                 = real.IPV6_RECVHOPOPTS
	IPV6_RECVPKTINFO                 = real.IPV6_RECVPKTINFO
	IPV6_RECVRTHDR                   = real.IPV6_RECVRTHDR
	IPV6_RECVTCLASS                  = real.IPV6_RECVTCLASS
	IPV6_ROUTER_ALERT                = real.IPV6_ROUTER_ALERT
	IPV6_RTHDR                       = real.IPV6_RTHDR
	IPV6_RTHDRDSTOPTS                = real.IPV6_RTHDRDSTOPTS
	IPV6_RTHDR_LOOSE                 = real.IPV6_RTHDR_LOOSE
	IPV6_RTHDR_STRICT                = real.IPV6_RTHDR_STRICT
	IPV6_RTHDR_TYPE_0                = real.IPV6_RTHDR_TYPE_0
	IPV6_RXDSTOPTS                   = real.IPV6_RXDSTOPTS
	IPV6_RXHOPOPTS                   = real.IPV6_RXHOPOPTS
	IPV6_TCLASS                      = real.IPV6_TCLASS
	IPV6_UNICAST_HOPS                = real.IPV6_UNICAST_HOPS
	IPV6_V6ONLY                      = real.IPV6_V6ONLY
	IPV6_XFRM_POLICY                 = real.IPV6_XFRM_POLICY
	IP_ADD_MEMBERSHIP                = real.IP_ADD_MEMBERSHIP
	IP_ADD_SOURCE_MEMBERSHIP         = real.IP_ADD_SOURCE_MEMBERSHIP
	IP_BLOCK_SOURCE                  = real.IP_BLOCK_SOURCE
	IP_DEFAULT_MULTICAST_LOOP        = real.IP_DEFAULT_MULTICAST_LOOP
	IP_DEFAULT_MULTICAST_TTL         = real.IP_DEFAULT_MULTICAST_TTL
	IP_DF                            = real.IP_DF
	IP_DROP_MEMBERSHIP               = real.IP_DROP_MEMBERSHIP
	IP_DROP_SOURCE_MEMBERSHIP        = real.IP_DROP_SOURCE_MEMBERSHIP
	IP_FREEBIND                      = real.IP_FREEBIND
	IP_HDRINCL                       = real.IP_HDRINCL
	IP_IPSEC_POLICY                  = real.IP_IPSEC_POLICY
	IP_MAXPACKET                     = real.IP_MAXPACKET
	IP_MAX_MEMBERSHIPS               = real.IP_MAX_MEMBERSHIPS
	IP_MF                            = real.IP_MF
	IP_MINTTL                        = real.IP_MINTTL
	IP_MSFILTER                      = real.IP_MSFILTER
	IP_MSS                           = real.IP_MSS
	IP_MTU                           = real.IP_MTU
	IP_MTU_DISCOVER                  = real.IP_MTU_DISCOVER
	IP_MULTICAST_IF                  = real.IP_MULTICAST_IF
	IP_MULTICAST_LOOP                = real.IP_MULTICAST_LOOP
	IP_MULTICAST_TTL                 = real.IP_MULTICAST_TTL
	IP_OFFMASK                       = real.IP_OFFMASK
	IP_OPTIONS                       = real.IP_OPTIONS
	IP_ORIGDSTADDR                   = real.IP_ORIGDSTADDR
	IP_PASSSEC                       = real.IP_PASSSEC
	IP_PKTINFO                       = real.IP_PKTINFO
	IP_PKTOPTIONS                    = real.IP_PKTOPTIONS
	IP_PMTUDISC                      = real.IP_PMTUDISC
	IP_PMTUDISC_DO                   = real.IP_PMTUDISC_DO
	IP_PMTUDISC_DONT                 = real.IP_PMTUDISC_DONT
	IP_PMTUDISC_PROBE                = real.IP_PMTUDISC_PROBE
	IP_PMTUDISC_WANT                 = real.IP_PMTUDISC_WANT
	IP_RECVERR                       = real.IP_RECVERR
	IP_RECVOPTS                      = real.IP_RECVOPTS
	IP_RECVORIGDSTADDR               = real.IP_RECVORIGDSTADDR
	IP_RECVRETOPTS                   = real.IP_RECVRETOPTS
	IP_RECVTOS                       = real.IP_RECVTOS
	IP_RECVTTL                       = real.IP_RECVTTL
	IP_RETOPTS                       = real.IP_RETOPTS
	IP_RF                            = real.IP_RF
	IP_ROUTER_ALERT                  = real.IP_ROUTER_ALERT
	IP_TOS                           = real.IP_TOS
	IP_TRANSPARENT                   = real.IP_TRANSPARENT
	IP_TTL                           = real.IP_TTL
	IP_UNBLOCK_SOURCE                = real.IP_UNBLOCK_SOURCE
	IP_XFRM_POLICY                   = real.IP_XFRM_POLICY
	ISIG                             = real.ISIG
	ISTRIP                           = real.ISTRIP
	IUCLC                            = real.IUCLC
	IUTF8                            = real.IUTF8
	IXANY                            = real.IXANY
	IXOFF                            = real.IXOFF
	IXON                             = real.IXON
	ImplementsGetwd                  = real.ImplementsGetwd
	LINUX_REBOOT_CMD_CAD_OFF         = real.LINUX_REBOOT_CMD_CAD_OFF
	LINUX_REBOOT_CMD_CAD_ON          = real.LINUX_REBOOT_CMD_CAD_ON
	LINUX_REBOOT_CMD_HALT            = real.LINUX_REBOOT_CMD_HALT
	LINUX_REBOOT_CMD_KEXEC           = real.LINUX_REBOOT_CMD_KEXEC
	LINUX_REBOOT_CMD_POWER_OFF       = real.LINUX_REBOOT_CMD_POWER_OFF
	LINUX_REBOOT_CMD_RESTART         = real.LINUX_REBOOT_CMD_RESTART
	LINUX_REBOOT_CMD_RESTART2        = real.LINUX_REBOOT_CMD_RESTART2
	LINUX_REBOOT_CMD_SW_SUSPEND      = real.LINUX_REBOOT_CMD_SW_SUSPEND
	LINUX_REBOOT_MAGIC1              = real.LINUX_REBOOT_MAGIC1
	LINUX_REBOOT_MAGIC2              = real.LINUX_REBOOT_MAGIC2
	LOCK_EX                          = real.LOCK_EX
	LOCK_NB                          = real.LOCK_NB
	LOCK_SH                          = real.LOCK_SH
	LOCK_UN                          = real.LOCK_UN
	MADV_DOFORK                      = real.MADV_DOFORK
	MADV_DONTFORK                    = real.MADV_DONTFORK
	MADV_DONTNEED                    = real.MADV_DONTNEED
	MADV_HUGEPAGE                    = real.MADV_HUGEPAGE
	MADV_HWPOISON                    = real.MADV_HWPOISON
	MADV_MERGEABLE                   = real.MADV_MERGEABLE
	MADV_NOHUGEPAGE                  = real.MADV_NOHUGEPAGE
	MADV_NORMAL                      = real.MADV_NORMAL
	MADV_RANDOM                      = real.MADV_RANDOM
	MADV_REMOVE                      = real.MADV_REMOVE
	MADV_SEQUENTIAL                  = real.MADV_SEQUENTIAL
	MADV_UNMERGEABLE                 = real.MADV_UNMERGEABLE
	MADV_WILLNEED                    = real.MADV_WILLNEED
	MAP_32BIT                        = real.MAP_32BIT
	MAP_ANON                         = real.MAP_ANON
	MAP_ANONYMOUS                    = real.MAP_ANONYMOUS
	MAP_DENYWRITE                    = real.MAP_DENYWRITE
	MAP_EXECUTABLE                   = real.MAP_EXECUTABLE
	MAP_FILE                         = real.MAP_FILE
	MAP_FIXED                        = real.MAP_FIXED
	MAP_GROWSDOWN                    = real.MAP_GROWSDOWN
	MAP_HUGETLB                      = real.MAP_HUGETLB
	MAP_LOCKED                       = real.MAP_LOCKED
	MAP_NONBLOCK                     = real.MAP_NONBLOCK
	MAP_NORESERVE                    = real.MAP_NORESERVE
	MAP_POPULATE                     = real.MAP_POPULATE
	MAP_PRIVATE                      = real.MAP_PRIVATE
	MAP_SHARED                       = real.MAP_SHARED
	MAP_STACK                        = real.MAP_STACK
	MAP_TYPE                         = real.MAP_TYPE
	MCL_CURRENT                      = real.MCL_CURRENT
	MCL_FUTURE                       = real.MCL_FUTURE
	MNT_DETACH                       = real.MNT_DETACH
	MNT_EXPIRE                       = real.MNT_EXPIRE
	MNT_FORCE                        = real.MNT_FORCE
	MSG_CMSG_CLOEXEC                 = real.MSG_CMSG_CLOEXEC
	MSG_CONFIRM                      = real.MSG_CONFIRM
	MSG_CTRUNC                       = real.MSG_CTRUNC
	MSG_DONTROUTE                    = real.MSG_DONTROUTE
	MSG_DONTWAIT                     = real.MSG_DONTWAIT
	MSG_EOR                          = real.MSG_EOR
	MSG_ERRQUEUE                     = real.MSG_ERRQUEUE
	MSG_FASTOPEN                     = real.MSG_FASTOPEN
	MSG_FIN                          = real.MSG_FIN
	MSG_MORE                         = real.MSG_MORE
	MSG_NOSIGNAL                     = real.MSG_NOSIGNAL
	MSG_OOB                          = real.MSG_OOB
	MSG_PEEK                         = real.MSG_PEEK
	MSG_PROXY                        = real.MSG_PROXY
	MSG_RST                          = real.MSG_RST
	MSG_SYN                          = real.MSG_SYN
	MSG_TRUNC                        = real.MSG_TRUNC
	MSG_TRYHARD                      = real.MSG_TRYHARD
	MSG_WAITALL                      = real.MSG_WAITALL
	MSG_WAITFORONE                   = real.MSG_WAITFORONE
	MS_ACTIVE                        = real.MS_ACTIVE
	MS_ASYNC                         = real.MS_ASYNC
	MS_BIND                          = real.MS_BIND
	MS_DIRSYNC                       = real.MS_DIRSYNC
	MS_INVALIDATE                    = real.MS_INVALIDATE
	MS_I_VERSION                     = real.MS_I_VERSION
	MS_KERNMOUNT                     = real.MS_KERNMOUNT
	MS_MANDLOCK                      = real.MS_MANDLOCK
	MS_MGC_MSK                       = real.MS_MGC_MSK
	MS_MGC_VAL                       = real.MS_MGC_VAL
	MS_MOVE                          = real.MS_MOVE
	MS_NOATIME                       = real.MS_NOATIME
	MS_NODEV                         = real.MS_NODEV
	MS_NODIRATIME                    = real.MS_NODIRATIME
	MS_NOEXEC                        = real.MS_NOEXEC
	MS_NOSUID                        = real.MS_NOSUID
	MS_NOUSER                        = real.MS_NOUSER
	MS_POSIXACL                      = real.MS_POSIXACL
	MS_PRIVATE                       = real.MS_PRIVATE
	MS_RDONLY                        = real.MS_RDONLY
	MS_REC                           = real.MS_REC
	MS_RELATIME                      = real.MS_RELATIME
	MS_REMOUNT                       = real.MS_REMOUNT
	MS_RMT_MASK                      = real.MS_RMT_MASK
	MS_SHARED                        = real.MS_SHARED
	MS_SILENT                        = real.MS_SILENT
	MS_SLAVE                         = real.MS_SLAVE
	MS_STRICTATIME                   = real.MS_STRICTATIME
	MS_SYNC                          = real.MS_SYNC
	MS_SYNCHRONOUS                   = real.MS_SYNCHRONOUS
	MS_UNBINDABLE                    = real.MS_UNBINDABLE
	NAME_MAX                         = real.NAME_MAX
	NETLINK_ADD_MEMBERSHIP           = real.NETLINK_ADD_MEMBERSHIP
	NETLINK_AUDIT                    = real.NETLINK_AUDIT
	NETLINK_BROADCAST_ERROR          = real.NETLINK_BROADCAST_ERROR
	NETLINK_CONNECTOR                = real.NETLINK_CONNECTOR
	NETLINK_DNRTMSG                  = real.NETLINK_DNRTMSG
	NETLINK_DROP_MEMBERSHIP          = real.NETLINK_DROP_MEMBERSHIP
	NETLINK_ECRYPTFS                 = real.NETLINK_ECRYPTFS
	NETLINK_FIB_LOOKUP               = real.NETLINK_FIB_LOOKUP
	NETLINK_FIREWALL                 = real.NETLINK_FIREWALL
	NETLINK_GENERIC                  = real.NETLINK_GENERIC
	NETLINK_INET_DIAG                = real.NETLINK_INET_DIAG
	NETLINK_IP6_FW                   = real.NETLINK_IP6_FW
	NETLINK_ISCSI                    = real.NETLINK_ISCSI
	NETLINK_KOBJECT_UEVENT           = real.NETLINK_KOBJECT_UEVENT
	NETLINK_NETFILTER                = real.NETLINK_NETFILTER
	NETLINK_NFLOG                    = real.NETLINK_NFLOG
	NETLINK_NO_ENOBUFS               = real.NETLINK_NO_ENOBUFS
	NETLINK_PKTINFO                  = real.NETLINK_PKTINFO
	NETLINK_ROUTE                    = real.NETLINK_ROUTE
	NETLINK_SCSITRANSPORT            = real.NETLINK_SCSITRANSPORT
	NETLINK_SELINUX                  = real.NETLINK_SELINUX
	NETLINK_UNUSED                   = real.NETLINK_UNUSED
	NETLINK_USERSOCK                 = real.NETLINK_USERSOCK
	NETLINK_XFRM                     = real.NETLINK_XFRM
	NLA_ALIGNTO                      = real.NLA_ALIGNTO
	NLA_F_NESTED                     = real.NLA_F_NESTED
	NLA_F_NET_BYTEORDER              = real.NLA_F_NET_BYTEORDER
	NLA_HDRLEN                       = real.NLA_HDRLEN
	NLMSG_ALIGNTO                    = real.NLMSG_ALIGNTO
	NLMSG_DONE                       = real.NLMSG_DONE
	NLMSG_ERROR                      = real.NLMSG_ERROR
	NLMSG_HDRLEN                     = real.NLMSG_HDRLEN
	NLMSG_MIN_TYPE                   = real.NLMSG_MIN_TYPE
	NLMSG_NOOP                       = real.NLMSG_NOOP
	NLMSG_OVERRUN                    = real.NLMSG_OVERRUN
	NLM_F_ACK                        = real.NLM_F_ACK
	NLM_F_APPEND                     = real.NLM_F_APPEND
	NLM_F_ATOMIC                     = real.NLM_F_ATOMIC
	NLM_F_CREATE                     = real.NLM_F_CREATE
	NLM_F_DUMP                       = real.NLM_F_DUMP
	NLM_F_ECHO                       = real.NLM_F_ECHO
	NLM_F_EXCL                       = real.NLM_F_EXCL
	NLM_F_MATCH                      = real.NLM_F_MATCH
	NLM_F_MULTI                      = real.NLM_F_MULTI
	NLM_F_REPLACE                    = real.NLM_F_REPLACE
	NLM_F_REQUEST                    = real.NLM_F_REQUEST
	NLM_F_ROOT                       = real.NLM_F_ROOT
	NOFLSH                           = real.NOFLSH
	OCRNL                            = real.OCRNL
	OFDEL                            = real.OFDEL
	OFILL                            = real.OFILL
	OLCUC                            = real.OLCUC
	ONLCR                            = real.ONLCR
	ONLRET                           = real.ONLRET
	ONOCR                            = real.ONOCR
	OPOST                            = real.OPOST
	O_ACCMODE                        = real.O_ACCMODE
	O_APPEND                         = real.O_APPEND
	O_ASYNC                          = real.O_ASYNC
	O_CLOEXEC                        = real.O_CLOEXEC
	O_CREAT                          = real.O_CREAT
	O_DIRECT                         = real.O_DIRECT
	O_DIRECTORY                      = real.O_DIRECTORY
	O_DSYNC                          = real.O_DSYNC
	O_EXCL                           = real.O_EXCL
	O_FSYNC                          = real.O_FSYNC
	O_LARGEFILE                      = real.O_LARGEFILE
	O_NDELAY                         = real.O_NDELAY
	O_NOATIME                        = real.O_NOATIME
	O_NOCTTY                         = real.O_NOCTTY
	O_NOFOLLOW                       = real.O_NOFOLLOW
	O_NONBLOCK                       = real.O_NONBLOCK
	O_RDONLY                         = real.O_RDONLY
	O_RDWR                           = real.O_RDWR
	O_RSYNC                          = real.O_RSYNC
	O_SYNC                           = real.O_SYNC
	O_TRUNC                          = real.O_TRUNC
	O_WRONLY                         = real.O_WRONLY
	PACKET_ADD_MEMBERSHIP            = real.PACKET_ADD_MEMBERSHIP
	PACKET_BROADCAST                 = real.PACKET_BROADCAST
	PACKET_DROP_MEMBERSHIP           = real.PACKET_DROP_MEMBERSHIP
	PACKET_FASTROUTE                 = real.PACKET_FASTROUTE
	PACKET_HOST                      = real.PACKET_HOST
	PACKET_LOOPBACK                  = real.PACKET_LOOPBACK
	PACKET_MR_ALLMULTI               = real.PACKET_MR_ALLMULTI
	PACKET_MR_MULTICAST              = real.PACKET_MR_MULTICAST
	PACKET_MR_PROMISC                = real.PACKET_MR_PROMISC
	PACKET_MULTICAST                 = real.PACKET_MULTICAST
	PACKET_OTHERHOST                 = real.PACKET_OTHERHOST
	PACKET_OUTGOING                  = real.PACKET_OUTGOING
	PACKET_RECV_OUTPUT               = real.PACKET_RECV_OUTPUT
	PACKET_RX_RING                   = real.PACKET_RX_RING
	PACKET_STATISTICS                = real.PACKET_STATISTICS
	PARENB                           = real.PARENB
	PARMRK                           = real.PARMRK
	PARODD                           = real.PARODD
	PENDIN                           = real.PENDIN
	PRIO_PGRP                        = real.PRIO_PGRP
	PRIO_PROCESS                     = real.PRIO_PROCESS
	PRIO_USER                        = real.PRIO_USER
	PROT_EXEC                        = real.PROT_EXEC
	PROT_GROWSDOWN                   = real.PROT_GROWSDOWN
	PROT_GROWSUP                     = real.PROT_GROWSUP
	PROT_NONE                        = real.PROT_NONE
	PROT_READ                        = real.PROT_READ
	PROT_WRITE                       = real.PROT_WRITE
	PR_CAPBSET_DROP                  = real.PR_CAPBSET_DROP
	PR_CAPBSET_READ                  = real.PR_CAPBSET_READ
	PR_ENDIAN_BIG                    = real.PR_ENDIAN_BIG
	PR_ENDIAN_LITTLE                 = real.PR_ENDIAN_LITTLE
	PR_ENDIAN_PPC_LITTLE             = real.PR_ENDIAN_PPC_LITTLE
	PR_FPEMU_NOPRINT                 = real.PR_FPEMU_NOPRINT
	PR_FPEMU_SIGFPE                  = real.PR_FPEMU_SIGFPE
	PR_FP_EXC_ASYNC                  = real.PR_FP_EXC_ASYNC
	PR_FP_EXC_DISABLED               = real.PR_FP_EXC_DISABLED
	PR_FP_EXC_DIV                    = real.PR_FP_EXC_DIV
	PR_FP_EXC_INV                    = real.PR_FP_EXC_INV
	PR_FP_EXC_NONRECOV               = real.PR_FP_EXC_NONRECOV
	PR_FP_EXC_OVF                    = real.PR_FP_EXC_OVF
	PR_FP_EXC_PRECISE                = real.PR_FP_EXC_PRECISE
	PR_FP_EXC_RES                    = real.PR_FP_EXC_RES
	PR_FP_EXC_SW_ENABLE              = real.PR_FP_EXC_SW_ENABLE
	PR_FP_EXC_UND                    = real.PR_FP_EXC_UND
	PR_GET_DUMPABLE                  = real.PR_GET_DUMPABLE
	PR_GET_ENDIAN                    = real.PR_GET_ENDIAN
	PR_GET_FPEMU                     = real.PR_GET_FPEMU
	PR_GET_FPEXC                     = real.PR_GET_FPEXC
	PR_GET_KEEPCAPS                  = real.PR_GET_KEEPCAPS
	PR_GET_NAME                      = real.PR_GET_NAME
	PR_GET_PDEATHSIG                 = real.PR_GET_PDEATHSIG
	PR_GET_SECCOMP                   = real.PR_GET_SECCOMP
	PR_GET_SECUREBITS                = real.PR_GET_SECUREBITS
	PR_GET_TIMERSLACK                = real.PR_GET_TIMERSLACK
	PR_GET_TIMING                    = real.PR_GET_TIMING
	PR_GET_TSC                       = real.PR_GET_TSC
	PR_GET_UNALIGN                   = real.PR_GET_UNALIGN
	PR_MCE_KILL                      = real.PR_MCE_KILL
	PR_MCE_KILL_CLEAR                = real.PR_MCE_KILL_CLEAR
	PR_MCE_KILL_DEFAULT              = real.PR_MCE_KILL_DEFAULT
	PR_MCE_KILL_EARLY                = real.PR_MCE_KILL_EARLY
	PR_MCE_KILL_GET                  = real.PR_MCE_KILL_GET
	PR_MCE_KILL_LATE                 = real.PR_MCE_KILL_LATE
	PR_MCE_KILL_SET                  = real.PR_MCE_KILL_SET
	PR_SET_DUMPABLE                  = real.PR_SET_DUMPABLE
	PR_SET_ENDIAN                    = real.PR_SET_ENDIAN
	PR_SET_FPEMU                     = real.PR_SET_FPEMU
	PR_SET_FPEXC                     = real.PR_SET_FPEXC
	PR_SET_KEEPCAPS                  = real.PR_SET_KEEPCAPS
	PR_SET_NAME                      = real.PR_SET_NAME
	PR_SET_PDEATHSIG                 = real.PR_SET_PDEATHSIG
	PR_SET_PTRACER                   = real.PR_SET_PTRACER
	PR_SET_SECCOMP                   = real.PR_SET_SECCOMP
	PR_SET_SECUREBITS                = real.PR_SET_SECUREBITS
	PR_SET_TIMERSLACK                = real.PR_SET_TIMERSLACK
	PR_SET_TIMING                    = real.PR_SET_TIMING
	PR_SET_TSC                       = real.PR_SET_TSC
	PR_SET_UNALIGN                   = real.PR_SET_UNALIGN
	PR_TASK_PERF_EVENTS_DISABLE      = real.PR_TASK_PERF_EVENTS_DISABLE
	PR_TASK_PERF_EVENTS_ENABLE       = real.PR_TASK_PERF_EVENTS_ENABLE
	PR_TIMING_STATISTICAL            = real.PR_TIMING_STATISTICAL
	PR_TIMING_TIMESTAMP              = real.PR_TIMING_TIMESTAMP
	PR_TSC_ENABLE                    = real.PR_TSC_ENABLE
	PR_TSC_SIGSEGV                   = real.PR_TSC_SIGSEGV
	PR_UNALIGN_NOPRINT               = real.PR_UNALIGN_NOPRINT
	PR_UNALIGN_SIGBUS                = real.PR_UNALIGN_SIGBUS
	PTRACE_ARCH_PRCTL                = real.PTRACE_ARCH_PRCTL
	PTRACE_ATTACH                    = real.PTRACE_ATTACH
	PTRACE_CONT                      = real.PTRACE_CONT
	PTRACE_DETACH                    = real.PTRACE_DETACH
	PTRACE_EVENT_CLONE               = real.PTRACE_EVENT_CLONE
	PTRACE_EVENT_EXEC                = real.PTRACE_EVENT_EXEC
	PTRACE_EVENT_EXIT                = real.PTRACE_EVENT_EXIT
	PTRACE_EVENT_FORK                = real.PTRACE_EVENT_FORK
	PTRACE_EVENT_VFORK               = real.PTRACE_EVENT_VFORK
	PTRACE_EVENT_VFORK_DONE          = real.PTRACE_EVENT_VFORK_DONE
	PTRACE_GETEVENTMSG               = real.PTRACE_GETEVENTMSG
	PTRACE_GETFPREGS                 = real.PTRACE_GETFPREGS
	PTRACE_GETFPXREGS                = real.PTRACE_GETFPXREGS
	PTRACE_GETREGS                   = real.PTRACE_GETREGS
	PTRACE_GETREGSET                 = real.PTRACE_GETREGSET
	PTRACE_GETSIGINFO                = real.PTRACE_GETSIGINFO
	PTRACE_GET_THREAD_AREA           = real.PTRACE_GET_THREAD_AREA
	PTRACE_KILL                      = real.PTRACE_KILL
	PTRACE_OLDSETOPTIONS             = real.PTRACE_OLDSETOPTIONS
	PTRACE_O_MASK                    = real.PTRACE_O_MASK
	PTRACE_O_TRACECLONE              = real.PTRACE_O_TRACECLONE
	PTRACE_O_TRACEEXEC               = real.PTRACE_O_TRACEEXEC
	PTRACE_O_TRACEEXIT               = real.PTRACE_O_TRACEEXIT
	PTRACE_O_TRACEFORK               = real.PTRACE_O_TRACEFORK
	PTRACE_O_TRACESYSGOOD            = real.PTRACE_O_TRACESYSGOOD
	PTRACE_O_TRACEVFORK              = real.PTRACE_O_TRACEVFORK
	PTRACE_O_TRACEVFORKDONE          = real.PTRACE_O_TRACEVFORKDONE
	PTRACE_PEEKDATA                  = real.PTRACE_PEEKDATA
	PTRACE_PEEKTEXT                  = real.PTRACE_PEEKTEXT
	PTRACE_PEEKUSR                   = real.PTRACE_PEEKUSR
	PTRACE_POKEDATA                  = real.PTRACE_POKEDATA
	PTRACE_POKETEXT                  = real.PTRACE_POKETEXT
	PTRACE_POKEUSR                   = real.PTRACE_POKEUSR
	PTRACE_SETFPREGS                 = real.PTRACE_SETFPREGS
	PTRACE_SETFPXREGS                = real.PTRACE_SETFPXREGS
	PTRACE_SETOPTIONS                = real.PTRACE_SETOPTIONS
	PTRACE_SETREGS                   = real.PTRACE_SETREGS
	PTRACE_SETREGSET                 = real.PTRACE_SETREGSET
	PTRACE_SETSIGINFO                = real.PTRACE_SETSIGINFO
	PTRACE_SET_THREAD_AREA           = real.PTRACE_SET_THREAD_AREA
	PTRACE_SINGLEBLOCK               = real.PTRACE_SINGLEBLOCK
	PTRACE_SINGLESTEP                = real.PTRACE_SINGLESTEP
	PTRACE_SYSCALL                   = real.PTRACE_SYSCALL
	PTRACE_SYSEMU                    = real.PTRACE_SYSEMU
	PTRACE_SYSEMU_SINGLESTEP         = real.PTRACE_SYSEMU_SINGLESTEP
	PTRACE_TRACEME                   = real.PTRACE_TRACEME
	PathMax                          = real.PathMax
	RLIMIT_AS                        = real.RLIMIT_AS
	RLIMIT_CORE                      = real.RLIMIT_CORE
	RLIMIT_CPU                       = real.RLIMIT_CPU
	RLIMIT_DATA                      = real.RLIMIT_DATA
	RLIMIT_FSIZE                     = real.RLIMIT_FSIZE
	RLIMIT_NOFILE                    = real.RLIMIT_NOFILE
	RLIMIT_STACK                     = real.RLIMIT_STACK
	RLIM_INFINITY                    = real.RLIM_INFINITY
	RTAX_ADVMSS                      = real.RTAX_ADVMSS
	RTAX_CWND                        = real.RTAX_CWND
	RTAX_FEATURES                    = real.RTAX_FEATURES
	RTAX_FEATURE_ALLFRAG             = real.RTAX_FEATURE_ALLFRAG
	RTAX_FEATURE_ECN                 = real.RTAX_FEATURE_ECN
	RTAX_FEATURE_SACK                = real.RTAX_FEATURE_SACK
	RTAX_FEATURE_TIMESTAMP           = real.RTAX_FEATURE_TIMESTAMP
	RTAX_HOPLIMIT                    = real.RTAX_HOPLIMIT
	RTAX_INITCWND                    = real.RTAX_INITCWND
	RTAX_INITRWND                    = real.RTAX_INITRWND
	RTAX_LOCK                        = real.RTAX_LOCK
	RTAX_MAX                         = real.RTAX_MAX
	RTAX_MTU                         = real.RTAX_MTU
	RTAX_REORDERING                  = real.RTAX_REORDERING
	RTAX_RTO_MIN                     = real.RTAX_RTO_MIN
	RTAX_RTT                         = real.RTAX_RTT
	RTAX_RTTVAR                      = real.RTAX_RTTVAR
	RTAX_SSTHRESH                    = real.RTAX_SSTHRESH
	RTAX_UNSPEC                      = real.RTAX_UNSPEC
	RTAX_WINDOW                      = real.RTAX_WINDOW
	RTA_ALIGNTO                      = real.RTA_ALIGNTO
	RTA_CACHEINFO                    = real.RTA_CACHEINFO
	RTA_DST                          = real.RTA_DST
	RTA_FLOW                         = real.RTA_FLOW
	RTA_GATEWAY                      = real.RTA_GATEWAY
	RTA_IIF                          = real.RTA_IIF
	RTA_MAX                          = real.RTA_MAX
	RTA_METRICS                      = real.RTA_METRICS
	RTA_MULTIPATH                    = real.RTA_MULTIPATH
	RTA_OIF                          = real.RTA_OIF
	RTA_PREFSRC                      = real.RTA_PREFSRC
	RTA_PRIORITY                     = real.RTA_PRIORITY
	RTA_SRC                          = real.RTA_SRC
	RTA_TABLE                        = real.RTA_TABLE
	RTA_UNSPEC                       = real.RTA_UNSPEC
	RTCF_DIRECTSRC                   = real.RTCF_DIRECTSRC
	RTCF_DOREDIRECT                  = real.RTCF_DOREDIRECT
	RTCF_LOG                         = real.RTCF_LOG
	RTCF_MASQ                        = real.RTCF_MASQ
	RTCF_NAT                         = real.RTCF_NAT
	RTCF_VALVE                       = real.RTCF_VALVE
	RTF_ADDRCLASSMASK                = real.RTF_ADDRCLASSMASK
	RTF_ADDRCONF                     = real.RTF_ADDRCONF
	RTF_ALLONLINK                    = real.RTF_ALLONLINK
	RTF_BROADCAST                    = real.RTF_BROADCAST
	RTF_CACHE                        = real.RTF_CACHE
	RTF_DEFAULT                      = real.RTF_DEFAULT
	RTF_DYNAMIC                      = real.RTF_DYNAMIC
	RTF_FLOW                         = real.RTF_FLOW
	RTF_GATEWAY                      = real.RTF_GATEWAY
	RTF_HOST                         = real.RTF_HOST
	RTF_INTERFACE                    = real.RTF_INTERFACE
	RTF_IRTT                         = real.RTF_IRTT
	RTF_LINKRT                       = real.RTF_LINKRT
	RTF_LOCAL                        = real.RTF_LOCAL
	RTF_MODIFIED                     = real.RTF_MODIFIED
	RTF_MSS                          = real.RTF_MSS
	RTF_MTU                          = real.RTF_MTU
	RTF_MULTICAST                    = real.RTF_MULTICAST
	RTF_NAT                          = real.RTF_NAT
	RTF_NOFORWARD                    = real.RTF_NOFORWARD
	RTF_NONEXTHOP                    = real.RTF_NONEXTHOP
	RTF_NOPMTUDISC                   = real.RTF_NOPMTUDISC
	RTF_POLICY                       = real.RTF_POLICY
	RTF_REINSTATE                    = real.RTF_REINSTATE
	RTF_REJECT                       = real.RTF_REJECT
	RTF_STATIC                       = real.RTF_STATIC
	RTF_THROW                        = real.RTF_THROW
	RTF_UP                           = real.RTF_UP
	RTF_WINDOW                       = real.RTF_WINDOW
	RTF_XRESOLVE                     = real.RTF_XRESOLVE
	RTM_BASE                         = real.RTM_BASE
	RTM_DELACTION                    = real.RTM_DELACTION
	RTM_DELADDR                      = real.RTM_DELADDR
	RTM_DELADDRLABEL                 = real.RTM_DELADDRLABEL
	RTM_DELLINK                      = real.RTM_DELLINK
	RTM_DELNEIGH                     = real.RTM_DELNEIGH
	RTM_DELQDISC                     = real.RTM_DELQDISC
	RTM_DELROUTE                     = real.RTM_DELROUTE
	RTM_DELRULE                      = real.RTM_DELRULE
	RTM_DELTCLASS                    = real.RTM_DELTCLASS
	RTM_DELTFILTER                   = real.RTM_DELTFILTER
	RTM_F_CLONED                     = real.RTM_F_CLONED
	RTM_F_EQUALIZE                   = real.RTM_F_EQUALIZE
	RTM_F_NOTIFY                     = real.RTM_F_NOTIFY
	RTM_F_PREFIX                     = real.RTM_F_PREFIX
	RTM_GETACTION                    = real.RTM_GETACTION
	RTM_GETADDR                      = real.RTM_GETADDR
	RTM_GETADDRLABEL                 = real.RTM_GETADDRLABEL
	RTM_GETANYCAST                   = real.RTM_GETANYCAST
	RTM_GETDCB                       = real.RTM_GETDCB
	RTM_GETLINK                      = real.RTM_GETLINK
	RTM_GETMULTICAST                 = real.RTM_GETMULTICAST
	RTM_GETNEIGH                     = real.RTM_GETNEIGH
	RTM_GETNEIGHTBL                  = real.RTM_GETNEIGHTBL
	RTM_GETQDISC                     = real.RTM_GETQDISC
	RTM_GETROUTE                     = real.RTM_GETROUTE
	RTM_GETRULE                      = real.RTM_GETRULE
	RTM_GETTCLASS                    = real.RTM_GETTCLASS
	RTM_GETTFILTER                   = real.RTM_GETTFILTER
	RTM_MAX                          = real.RTM_MAX
	RTM_NEWACTION                    = real.RTM_NEWACTION
	RTM_NEWADDR                      = real.RTM_NEWADDR
	RTM_NEWADDRLABEL                 = real.RTM_NEWADDRLABEL
	RTM_NEWLINK                      = real.RTM_NEWLINK
	RTM_NEWNDUSEROPT                 = real.RTM_NEWNDUSEROPT
	RTM_NEWNEIGH                     = real.RTM_NEWNEIGH
	RTM_NEWNEIGHTBL                  = real.RTM_NEWNEIGHTBL
	RTM_NEWPREFIX                    = real.RTM_NEWPREFIX
	RTM_NEWQDISC                     = real.RTM_NEWQDISC
	RTM_NEWROUTE                     = real.RTM_NEWROUTE
	RTM_NEWRULE                      = real.RTM_NEWRULE
	RTM_NEWTCLASS                    = real.RTM_NEWTCLASS
	RTM_NEWTFILTER                   = real.RTM_NEWTFILTER
	RTM_NR_FAMILIES                  = real.RTM_NR_FAMILIES
	RTM_NR_MSGTYPES                  = real.RTM_NR_MSGTYPES
	RTM_SETDCB                       = real.RTM_SETDCB
	RTM_SETLINK                      = real.RTM_SETLINK
	RTM_SETNEIGHTBL                  = real.RTM_SETNEIGHTBL
	RTNH_ALIGNTO                     = real.RTNH_ALIGNTO
	RTNH_F_DEAD                      = real.RTNH_F_DEAD
	RTNH_F_ONLINK                    = real.RTNH_F_ONLINK
	RTNH_F_PERVASIVE                 = real.RTNH_F_PERVASIVE
	RTNLGRP_IPV4_IFADDR              = real.RTNLGRP_IPV4_IFADDR
	RTNLGRP_IPV4_MROUTE              = real.RTNLGRP_IPV4_MROUTE
	RTNLGRP_IPV4_ROUTE               = real.RTNLGRP_IPV4_ROUTE
	RTNLGRP_IPV4_RULE                = real.RTNLGRP_IPV4_RULE
	RTNLGRP_IPV6_IFADDR              = real.RTNLGRP_IPV6_IFADDR
	RTNLGRP_IPV6_IFINFO              = real.RTNLGRP_IPV6_IFINFO
	RTNLGRP_IPV6_MROUTE              = real.RTNLGRP_IPV6_MROUTE
	RTNLGRP_IPV6_PREFIX              = real.RTNLGRP_IPV6_PREFIX
	RTNLGRP_IPV6_ROUTE               = real.RTNLGRP_IPV6_ROUTE
	RTNLGRP_IPV6_RULE                = real.RTNLGRP_IPV6_RULE
	RTNLGRP_LINK                     = real.RTNLGRP_LINK
	RTNLGRP_ND_USEROPT               = real.RTNLGRP_ND_USEROPT
	RTNLGRP_NEIGH                    = real.RTNLGRP_NEIGH
	RTNLGRP_NONE                     = real.RTNLGRP_NONE
	RTNLGRP_NOTIFY                   = real.RTNLGRP_NOTIFY
	RTNLGRP_TC                       = real.RTNLGRP_TC
	RTN_ANYCAST                      = real.RTN_ANYCAST
	RTN_BLACKHOLE                    = real.RTN_BLACKHOLE
	RTN_BROADCAST                    = real.RTN_BROADCAST
	RTN_LOCAL                        = real.RTN_LOCAL
	RTN_MAX                          = real.RTN_MAX
	RTN_MULTICAST                    = real.RTN_MULTICAST
	RTN_NAT                          = real.RTN_NAT
	RTN_PROHIBIT                     = real.RTN_PROHIBIT
	RTN_THROW                        = real.RTN_THROW
	RTN_UNICAST                      = real.RTN_UNICAST
	RTN_UNREACHABLE                  = real.RTN_UNREACHABLE
	RTN_UNSPEC                       = real.RTN_UNSPEC
	RTN_XRESOLVE                     = real.RTN_XRESOLVE
	RTPROT_BIRD                      = real.RTPROT_BIRD
	RTPROT_BOOT                      = real.RTPROT_BOOT
	RTPROT_DHCP                      = real.RTPROT_DHCP
	RTPROT_DNROUTED                  = real.RTPROT_DNROUTED
	RTPROT_GATED                     = real.RTPROT_GATED
	RTPROT_KERNEL                    = real.RTPROT_KERNEL
	RTPROT_MRT                       = real.RTPROT_MRT
	RTPROT_NTK                       = real.RTPROT_NTK
	RTPROT_RA                        = real.RTPROT_RA
	RTPROT_REDIRECT                  = real.RTPROT_REDIRECT
	RTPROT_STATIC                    = real.RTPROT_STATIC
	RTPROT_UNSPEC                    = real.RTPROT_UNSPEC
	RTPROT_XORP                      = real.RTPROT_XORP
	RTPROT_ZEBRA                     = real.RTPROT_ZEBRA
	RT_CLASS_DEFAULT                 = real.RT_CLASS_DEFAULT
	RT_CLASS_LOCAL                   = real.RT_CLASS_LOCAL
	RT_CLASS_MAIN                    = real.RT_CLASS_MAIN
	RT_CLASS_MAX                     = real.RT_CLASS_MAX
	RT_CLASS_UNSPEC                  = real.RT_CLASS_UNSPEC
	RT_SCOPE_HOST                    = real.RT_SCOPE_HOST
	RT_SCOPE_LINK                    = real.RT_SCOPE_LINK
	RT_SCOPE_NOWHERE                 = real.RT_SCOPE_NOWHERE
	RT_SCOPE_SITE                    = real.RT_SCOPE_SITE
	RT_SCOPE_UNIVERSE                = real.RT_SCOPE_UNIVERSE
	RT_TABLE_COMPAT                  = real.RT_TABLE_COMPAT
	RT_TABLE_DEFAULT                 = real.RT_TABLE_DEFAULT
	RT_TABLE_LOCAL                   = real.RT_TABLE_LOCAL
	RT_TABLE_MAIN                    = real.RT_TABLE_MAIN
	RT_TABLE_MAX                     = real.RT_TABLE_MAX
	RT_TABLE_UNSPEC                  = real.RT_TABLE_UNSPEC
	RUSAGE_CHILDREN                  = real.RUSAGE_CHILDREN
	RUSAGE_SELF                      = real.RUSAGE_SELF
	RUSAGE_THREAD                    = real.RUSAGE_THREAD
	SCM_CREDENTIALS                  = real.SCM_CREDENTIALS
	SCM_RIGHTS                       = real.SCM_RIGHTS
	SCM_TIMESTAMP                    = real.SCM_TIMESTAMP
	SCM_TIMESTAMPING                 = real.SCM_TIMESTAMPING
	SCM_TIMESTAMPNS                  = real.SCM_TIMESTAMPNS
	SHUT_RD                          = real.SHUT_RD
	SHUT_RDWR                        = real.SHUT_RDWR
	SHUT_WR                          = real.SHUT_WR
	SIGABRT                          = real.SIGABRT
	SIGALRM                          = real.SIGALRM
	SIGBUS                           = real.SIGBUS
	SIGCHLD                          = real.SIGCHLD
	SIGCLD                           = real.SIGCLD
	SIGCONT                          = real.SIGCONT
	SIGFPE                           = real.SIGFPE
	SIGHUP                           = real.SIGHUP
	SIGILL                           = real.SIGILL
	SIGINT                           = real.SIGINT
	SIGIO                            = real.SIGIO
	SIGIOT                           = real.SIGIOT
	SIGKILL                          = real.SIGKILL
	SIGPIPE                          = real.SIGPIPE
	SIGPOLL                          = real.SIGPOLL
	SIGPROF                          = real.SIGPROF
	SIGPWR                           = real.SIGPWR
	SIGQUIT                          = real.SIGQUIT
	SIGSEGV                          = real.SIGSEGV
	SIGSTKFLT                        = real.SIGSTKFLT
	SIGSTOP                          = real.SIGSTOP
	SIGSYS                           = real.SIGSYS
	SIGTERM                          = real.SIGTERM
	SIGTRAP                          = real.SIGTRAP
	SIGTSTP                          = real.SIGTSTP
	SIGTTIN                          = real.SIGTTIN
	SIGTTOU                          = real.SIGTTOU
	SIGUNUSED                        = real.SIGUNUSED
	SIGURG                           = real.SIGURG
	SIGUSR1                          = real.SIGUSR1
	SIGUSR2                          = real.SIGUSR2
	SIGVTALRM                        = real.SIGVTALRM
	SIGWINCH                         = real.SIGWINCH
	SIGXCPU                          = real.SIGXCPU
	SIGXFSZ                          = real.SIGXFSZ
	SIOCADDDLCI                      = real.SIOCADDDLCI
	SIOCADDMULTI                     = real.SIOCADDMULTI
	SIOCADDRT                        = real.SIOCADDRT
	SIOCATMARK                       = real.SIOCATMARK
	SIOCDARP                         = real.SIOCDARP
	SIOCDELDLCI                      = real.SIOCDELDLCI
	SIOCDELMULTI                     = real.SIOCDELMULTI
	SIOCDELRT                        = real.SIOCDELRT
	SIOCDEVPRIVATE                   = real.SIOCDEVPRIVATE
	SIOCDIFADDR                      = real.SIOCDIFADDR
	SIOCDRARP                        = real.SIOCDRARP
	SIOCGARP                         = real.SIOCGARP
	SIOCGIFADDR                      = real.SIOCGIFADDR
	SIOCGIFBR                        = real.SIOCGIFBR
	SIOCGIFBRDADDR                   = real.SIOCGIFBRDADDR
	SIOCGIFCONF                      = real.SIOCGIFCONF
	SIOCGIFCOUNT                     = real.SIOCGIFCOUNT
	SIOCGIFDSTADDR                   = real.SIOCGIFDSTADDR
	SIOCGIFENCAP                     = real.SIOCGIFENCAP
	SIOCGIFFLAGS                     = real.SIOCGIFFLAGS
	SIOCGIFHWADDR                    = real.SIOCGIFHWADDR
	SIOCGIFINDEX                     = real.SIOCGIFINDEX
	SIOCGIFMAP                       = real.SIOCGIFMAP
	SIOCGIFMEM                       = real.SIOCGIFMEM
	SIOCGIFMETRIC                    = real.SIOCGIFMETRIC
	SIOCGIFMTU                       = real.SIOCGIFMTU
	SIOCGIFNAME                      = real.SIOCGIFNAME
	SIOCGIFNETMASK                   = real.SIOCGIFNETMASK
	SIOCGIFPFLAGS                    = real.SIOCGIFPFLAGS
	SIOCGIFSLAVE                     = real.SIOCGIFSLAVE
	SIOCGIFTXQLEN                    = real.SIOCGIFTXQLEN
	SIOCGPGRP                        = real.SIOCGPGRP
	SIOCGRARP                        = real.SIOCGRARP
	SIOCGSTAMP                       = real.SIOCGSTAMP
	SIOCGSTAMPNS                     = real.SIOCGSTAMPNS
	SIOCPROTOPRIVATE                 = real.SIOCPROTOPRIVATE
	SIOCRTMSG                        = real.SIOCRTMSG
	SIOCSARP                         = real.SIOCSARP
	SIOCSIFADDR                      = real.SIOCSIFADDR
	SIOCSIFBR                        = real.SIOCSIFBR
	SIOCSIFBRDADDR                   = real.SIOCSIFBRDADDR
	SIOCSIFDSTADDR                   = real.SIOCSIFDSTADDR
	SIOCSIFENCAP                     = real.SIOCSIFENCAP
	SIOCSIFFLAGS                     = real.SIOCSIFFLAGS
	SIOCSIFHWADDR                    = real.SIOCSIFHWADDR
	SIOCSIFHWBROADCAST               = real.SIOCSIFHWBROADCAST
	SIOCSIFLINK                      = real.SIOCSIFLINK
	SIOCSIFMAP                       = real.SIOCSIFMAP
	SIOCSIFMEM                       = real.SIOCSIFMEM
	SIOCSIFMETRIC                    = real.SIOCSIFMETRIC
	SIOCSIFMTU                       = real.SIOCSIFMTU
	SIOCSIFNAME                      = real.SIOCSIFNAME
	SIOCSIFNETMASK                   = real.SIOCSIFNETMASK
	SIOCSIFPFLAGS                    = real.SIOCSIFPFLAGS
	SIOCSIFSLAVE                     = real.SIOCSIFSLAVE
	SIOCSIFTXQLEN                    = real.SIOCSIFTXQLEN
	SIOCSPGRP                        = real.SIOCSPGRP
	SIOCSRARP                        = real.SIOCSRARP
	SOCK_CLOEXEC                     = real.SOCK_CLOEXEC
	SOCK_DCCP                        = real.SOCK_DCCP
	SOCK_DGRAM                       = real.SOCK_DGRAM
	SOCK_NONBLOCK                    = real.SOCK_NONBLOCK
	SOCK_PACKET                      = real.SOCK_PACKET
	SOCK_RAW                         = real.SOCK_RAW
	SOCK_RDM                         = real.SOCK_RDM
	SOCK_SEQPACKET                   = real.SOCK_SEQPACKET
	SOCK_STREAM                      = real.SOCK_STREAM
	SOL_AAL                          = real.SOL_AAL
	SOL_ATM                          = real.SOL_ATM
	SOL_DECNET                       = real.SOL_DECNET
	SOL_ICMPV6                       = real.SOL_ICMPV6
	SOL_IP                           = real.SOL_IP
	SOL_IPV6                         = real.SOL_IPV6
	SOL_IRDA                         = real.SOL_IRDA
	SOL_PACKET                       = real.SOL_PACKET
	SOL_RAW                          = real.SOL_RAW
	SOL_SOCKET                       = real.SOL_SOCKET
	SOL_TCP                          = real.SOL_TCP
	SOL_X25                          = real.SOL_X25
	SOMAXCONN                        = real.SOMAXCONN
	SO_ACCEPTCONN                    = real.SO_ACCEPTCONN
	SO_ATTACH_FILTER                 = real.SO_ATTACH_FILTER
	SO_BINDTODEVICE                  = real.SO_BINDTODEVICE
	SO_BROADCAST                     = real.SO_BROADCAST
	SO_BSDCOMPAT                     = real.SO_BSDCOMPAT
	SO_DEBUG                         = real.SO_DEBUG
	SO_DETACH_FILTER                 = real.SO_DETACH_FILTER
	SO_DOMAIN                        = real.SO_DOMAIN
	SO_DONTROUTE                     = real.SO_DONTROUTE
	SO_ERROR                         = real.SO_ERROR
	SO_KEEPALIVE                     = real.SO_KEEPALIVE
	SO_LINGER                        = real.SO_LINGER
	SO_MARK                          = real.SO_MARK
	SO_NO_CHECK                      = real.SO_NO_CHECK
	SO_OOBINLINE                     = real.SO_OOBINLINE
	SO_PASSCRED                      = real.SO_PASSCRED
	SO_PASSSEC                       = real.SO_PASSSEC
	SO_PEERCRED                      = real.SO_PEERCRED
	SO_PEERNAME                      = real.SO_PEERNAME
	SO_PEERSEC                       = real.SO_PEERSEC
	SO_PRIORITY                      = real.SO_PRIORITY
	SO_PROTOCOL                      = real.SO_PROTOCOL
	SO_RCVBUF                        = real.SO_RCVBUF
	SO_RCVBUFFORCE                   = real.SO_RCVBUFFORCE
	SO_RCVLOWAT                      = real.SO_RCVLOWAT
	SO_RCVTIMEO                      = real.SO_RCVTIMEO
	SO_REUSEADDR                     = real.SO_REUSEADDR
	SO_RXQ_OVFL                      = real.SO_RXQ_OVFL
	SO_SECURITY_AUTHENTICATION       = real.SO_SECURITY_AUTHENTICATION
	SO_SECURITY_ENCRYPTION_NETWORK   = real.SO_SECURITY_ENCRYPTION_NETWORK
	SO_SECURITY_ENCRYPTION_TRANSPORT = real.SO_SECURITY_ENCRYPTION_TRANSPORT
	SO_SNDBUF                        = real.SO_SNDBUF
	SO_SNDBUFFORCE                   = real.SO_SNDBUFFORCE
	SO_SNDLOWAT                      = real.SO_SNDLOWAT
	SO_SNDTIMEO                      = real.SO_SNDTIMEO
	SO_TIMESTAMP                     = real.SO_TIMESTAMP
	SO_TIMESTAMPING                  = real.SO_TIMESTAMPING
	SO_TIMESTAMPNS                   = real.SO_TIMESTAMPNS
	SO_TYPE                          = real.SO_TYPE
	SYS_ACCEPT                       = real.SYS_ACCEPT
	SYS_ACCEPT4                      = real.SYS_ACCEPT4
	SYS_ACCESS                       = real.SYS_ACCESS
	SYS_ACCT                         = real.SYS_ACCT
	SYS_ADD_KEY                      = real.SYS_ADD_KEY
	SYS_ADJTIMEX                     = real.SYS_ADJTIMEX
	SYS_AFS_SYSCALL                  = real.SYS_AFS_SYSCALL
	SYS_ALARM                        = real.SYS_ALARM
	SYS_ARCH_PRCTL                   = real.SYS_ARCH_PRCTL
	SYS_BIND                         = real.SYS_BIND
	SYS_BRK                          = real.SYS_BRK
	SYS_CAPGET                       = real.SYS_CAPGET
	SYS_CAPSET                       = real.SYS_CAPSET
	SYS_CHDIR                        = real.SYS_CHDIR
	SYS_CHMOD                        = real.SYS_CHMOD
	SYS_CHOWN                        = real.SYS_CHOWN
	SYS_CHROOT                       = real.SYS_CHROOT
	SYS_CLOCK_GETRES                 = real.SYS_CLOCK_GETRES
	SYS_CLOCK_GETTIME                = real.SYS_CLOCK_GETTIME
	SYS_CLOCK_NANOSLEEP              = real.SYS_CLOCK_NANOSLEEP
	SYS_CLOCK_SETTIME                = real.SYS_CLOCK_SETTIME
	SYS_CLONE                        = real.SYS_CLONE
	SYS_CLOSE                        = real.SYS_CLOSE
	SYS_CONNECT                      = real.SYS_CONNECT
	SYS_CREAT                        = real.SYS_CREAT
	SYS_CREATE_MODULE                = real.SYS_CREATE_MODULE
	SYS_DELETE_MODULE                = real.SYS_DELETE_MODULE
	SYS_DUP                          = real.SYS_DUP
	SYS_DUP2                         = real.SYS_DUP2
	SYS_DUP3                         = real.SYS_DUP3
	SYS_EPOLL_CREATE                 = real.SYS_EPOLL_CREATE
	SYS_EPOLL_CREATE1                = real.SYS_EPOLL_CREATE1
	SYS_EPOLL_CTL                    = real.SYS_EPOLL_CTL
	SYS_EPOLL_CTL_OLD                = real.SYS_EPOLL_CTL_OLD
	SYS_EPOLL_PWAIT                  = real.SYS_EPOLL_PWAIT
	SYS_EPOLL_WAIT                   = real.SYS_EPOLL_WAIT
	SYS_EPOLL_WAIT_OLD               = real.SYS_EPOLL_WAIT_OLD
	SYS_EVENTFD                      = real.SYS_EVENTFD
	SYS_EVENTFD2                     = real.SYS_EVENTFD2
	SYS_EXECVE                       = real.SYS_EXECVE
	SYS_EXIT                         = real.SYS_EXIT
	SYS_EXIT_GROUP                   = real.SYS_EXIT_GROUP
	SYS_FACCESSAT                    = real.SYS_FACCESSAT
	SYS_FADVISE64                    = real.SYS_FADVISE64
	SYS_FALLOCATE                    = real.SYS_FALLOCATE
	SYS_FANOTIFY_INIT                = real.SYS_FANOTIFY_INIT
	SYS_FANOTIFY_MARK                = real.SYS_FANOTIFY_MARK
	SYS_FCHDIR                       = real.SYS_FCHDIR
	SYS_FCHMOD                       = real.SYS_FCHMOD
	SYS_FCHMODAT                     = real.SYS_FCHMODAT
	SYS_FCHOWN                       = real.SYS_FCHOWN
	SYS_FCHOWNAT                     = real.SYS_FCHOWNAT
	SYS_FCNTL                        = real.SYS_FCNTL
	SYS_FDATASYNC                    = real.SYS_FDATASYNC
	SYS_FGETXATTR                    = real.SYS_FGETXATTR
	SYS_FLISTXATTR                   = real.SYS_FLISTXATTR
	SYS_FLOCK                        = real.SYS_FLOCK
	SYS_FORK                         = real.SYS_FORK
	SYS_FREMOVEXATTR                 = real.SYS_FREMOVEXATTR
	SYS_FSETXATTR                    = real.SYS_FSETXATTR
	SYS_FSTAT                        = real.SYS_FSTAT
	SYS_FSTATFS                      = real.SYS_FSTATFS
	SYS_FSYNC                        = real.SYS_FSYNC
	SYS_FTRUNCATE                    = real.SYS_FTRUNCATE
	SYS_FUTEX                        = real.SYS_FUTEX
	SYS_FUTIMESAT                    = real.SYS_FUTIMESAT
	SYS_GETCWD                       = real.SYS_GETCWD
	SYS_GETDENTS                     = real.SYS_GETDENTS
	SYS_GETDENTS64                   = real.SYS_GETDENTS64
	SYS_GETEGID                      = real.SYS_GETEGID
	SYS_GETEUID                      = real.SYS_GETEUID
	SYS_GETGID                       = real.SYS_GETGID
	SYS_GETGROUPS                    = real.SYS_GETGROUPS
	SYS_GETITIMER                    = real.SYS_GETITIMER
	SYS_GETPEERNAME                  = real.SYS_GETPEERNAME
	SYS_GETPGID                      = real.SYS_GETPGID
	SYS_GETPGRP                      = real.SYS_GETPGRP
	SYS_GETPID                       = real.SYS_GETPID
	SYS_GETPMSG                      = real.SYS_GETPMSG
	SYS_GETPPID                      = real.SYS_GETPPID
	SYS_GETPRIORITY                  = real.SYS_GETPRIORITY
	SYS_GETRESGID                    = real.SYS_GETRESGID
	SYS_GETRESUID                    = real.SYS_GETRESUID
	SYS_GETRLIMIT                    = real.SYS_GETRLIMIT
	SYS_GETRUSAGE                    = real.SYS_GETRUSAGE
	SYS_GETSID                       = real.SYS_GETSID
	SYS_GETSOCKNAME                  = real.SYS_GETSOCKNAME
	SYS_GETSOCKOPT                   = real.SYS_GETSOCKOPT
	SYS_GETTID                       = real.SYS_GETTID
	SYS_GETTIMEOFDAY                 = real.SYS_GETTIMEOFDAY
	SYS_GETUID                       = real.SYS_GETUID
	SYS_GETXATTR                     = real.SYS_GETXATTR
	SYS_GET_KERNEL_SYMS              = real.SYS_GET_KERNEL_SYMS
	SYS_GET_MEMPOLICY                = real.SYS_GET_MEMPOLICY
	SYS_GET_ROBUST_LIST              = real.SYS_GET_ROBUST_LIST
	SYS_GET_THREAD_AREA              = real.SYS_GET_THREAD_AREA
	SYS_INIT_MODULE                  = real.SYS_INIT_MODULE
	SYS_INOTIFY_ADD_WATCH            = real.SYS_INOTIFY_ADD_WATCH
	SYS_INOTIFY_INIT                 = real.SYS_INOTIFY_INIT
	SYS_INOTIFY_INIT1                = real.SYS_INOTIFY_INIT1
	SYS_INOTIFY_RM_WATCH             = real.SYS_INOTIFY_RM_WATCH
	SYS_IOCTL                        = real.SYS_IOCTL
	SYS_IOPERM                       = real.SYS_IOPERM
	SYS_IOPL                         = real.SYS_IOPL
	SYS_IOPRIO_GET                   = real.SYS_IOPRIO_GET
	SYS_IOPRIO_SET                   = real.SYS_IOPRIO_SET
	SYS_IO_CANCEL                    = real.SYS_IO_CANCEL
	SYS_IO_DESTROY                   = real.SYS_IO_DESTROY
	SYS_IO_GETEVENTS                 = real.SYS_IO_GETEVENTS
	SYS_IO_SETUP                     = real.SYS_IO_SETUP
	SYS_IO_SUBMIT                    = real.SYS_IO_SUBMIT
	SYS_KEXEC_LOAD                   = real.SYS_KEXEC_LOAD
	SYS_KEYCTL                       = real.SYS_KEYCTL
	SYS_KILL                         = real.SYS_KILL
	SYS_LCHOWN                       = real.SYS_LCHOWN
	SYS_LGETXATTR                    = real.SYS_LGETXATTR
	SYS_LINK                         = real.SYS_LINK
	SYS_LINKAT                       = real.SYS_LINKAT
	SYS_LISTEN                       = real.SYS_LISTEN
	SYS_LISTXATTR                    = real.SYS_LISTXATTR
	SYS_LLISTXATTR                   = real.SYS_LLISTXATTR
	SYS_LOOKUP_DCOOKIE               = real.SYS_LOOKUP_DCOOKIE
	SYS_LREMOVEXATTR                 = real.SYS_LREMOVEXATTR
	SYS_LSEEK                        = real.SYS_LSEEK
	SYS_LSETXATTR                    = real.SYS_LSETXATTR
	SYS_LSTAT                        = real.SYS_LSTAT
	SYS_MADVISE                      = real.SYS_MADVISE
	SYS_MBIND                        = real.SYS_MBIND
	SYS_MIGRATE_PAGES                = real.SYS_MIGRATE_PAGES
	SYS_MINCORE                      = real.SYS_MINCORE
	SYS_MKDIR                        = real.SYS_MKDIR
	SYS_MKDIRAT                      = real.SYS_MKDIRAT
	SYS_MKNOD                        = real.SYS_MKNOD
	SYS_MKNODAT                      = real.SYS_MKNODAT
	SYS_MLOCK                        = real.SYS_MLOCK
	SYS_MLOCKALL                     = real.SYS_MLOCKALL
	SYS_MMAP                         = real.SYS_MMAP
	SYS_MODIFY_LDT                   = real.SYS_MODIFY_LDT
	SYS_MOUNT                        = real.SYS_MOUNT
	SYS_MOVE_PAGES                   = real.SYS_MOVE_PAGES
	SYS_MPROTECT                     = real.SYS_MPROTECT
	SYS_MQ_GETSETATTR                = real.SYS_MQ_GETSETATTR
	SYS_MQ_NOTIFY                    = real.SYS_MQ_NOTIFY
	SYS_MQ_OPEN                      = real.SYS_MQ_OPEN
	SYS_MQ_TIMEDRECEIVE              = real.SYS_MQ_TIMEDRECEIVE
	SYS_MQ_TIMEDSEND                 = real.SYS_MQ_TIMEDSEND
	SYS_MQ_UNLINK                    = real.SYS_MQ_UNLINK
	SYS_MREMAP                       = real.SYS_MREMAP
	SYS_MSGCTL                       = real.SYS_MSGCTL
	SYS_MSGGET                       = real.SYS_MSGGET
	SYS_MSGRCV                       = real.SYS_MSGRCV
	SYS_MSGSND                       = real.SYS_MSGSND
	SYS_MSYNC                        = real.SYS_MSYNC
	SYS_MUNLOCK                      = real.SYS_MUNLOCK
	SYS_MUNLOCKALL                   = real.SYS_MUNLOCKALL
	SYS_MUNMAP                       = real.SYS_MUNMAP
	SYS_NANOSLEEP                    = real.SYS_NANOSLEEP
	SYS_NEWFSTATAT                   = real.SYS_NEWFSTATAT
	SYS_NFSSERVCTL                   = real.SYS_NFSSERVCTL
	SYS_OPEN                         = real.SYS_OPEN
	SYS_OPENAT                       = real.SYS_OPENAT
	SYS_PAUSE                        = real.SYS_PAUSE
	SYS_PERF_EVENT_OPEN              = real.SYS_PERF_EVENT_OPEN
	SYS_PERSONALITY                  = real.SYS_PERSONALITY
	SYS_PIPE                         = real.SYS_PIPE
	SYS_PIPE2                        = real.SYS_PIPE2
	SYS_PIVOT_ROOT                   = real.SYS_PIVOT_ROOT
	SYS_POLL                         = real.SYS_POLL
	SYS_PPOLL                        = real.SYS_PPOLL
	SYS_PRCTL                        = real.SYS_PRCTL
	SYS_PREAD64                      = real.SYS_PREAD64
	SYS_PREADV                       = real.SYS_PREADV
	SYS_PRLIMIT64                    = real.SYS_PRLIMIT64
	SYS_PSELECT6                     = real.SYS_PSELECT6
	SYS_PTRACE                       = real.SYS_PTRACE
	SYS_PUTPMSG                      = real.SYS_PUTPMSG
	SYS_PWRITE64                     = real.SYS_PWRITE64
	SYS_PWRITEV                      = real.SYS_PWRITEV
	SYS_QUERY_MODULE                 = real.SYS_QUERY_MODULE
	SYS_QUOTACTL                     = real.SYS_QUOTACTL
	SYS_READ                         = real.SYS_READ
	SYS_READAHEAD                    = real.SYS_READAHEAD
	SYS_READLINK                     = real.SYS_READLINK
	SYS_READLINKAT                   = real.SYS_READLINKAT
	SYS_READV                        = real.SYS_READV
	SYS_REBOOT                       = real.SYS_REBOOT
	SYS_RECVFROM                     = real.SYS_RECVFROM
	SYS_RECVMMSG                     = real.SYS_RECVMMSG
	SYS_RECVMSG                      = real.SYS_RECVMSG
	SYS_REMAP_FILE_PAGES             = real.SYS_REMAP_FILE_PAGES
	SYS_REMOVEXATTR                  = real.SYS_REMOVEXATTR
	SYS_RENAME                       = real.SYS_RENAME
	SYS_RENAMEAT                     = real.SYS_RENAMEAT
	SYS_REQUEST_KEY                  = real.SYS_REQUEST_KEY
	SYS_RESTART_SYSCALL              = real.SYS_RESTART_SYSCALL
	SYS_RMDIR                        = real.SYS_RMDIR
	SYS_RT_SIGACTION                 = real.SYS_RT_SIGACTION
	SYS_RT_SIGPENDING                = real.SYS_RT_SIGPENDING
	SYS_RT_SIGPROCMASK               = real.SYS_RT_SIGPROCMASK
	SYS_RT_SIGQUEUEINFO              = real.SYS_RT_SIGQUEUEINFO
	SYS_RT_SIGRETURN                 = real.SYS_RT_SIGRETURN
	SYS_RT_SIGSUSPEND                = real.SYS_RT_SIGSUSPEND
	SYS_RT_SIGTIMEDWAIT              = real.SYS_RT_SIGTIMEDWAIT
	SYS_RT_TGSIGQUEUEINFO            = real.SYS_RT_TGSIGQUEUEINFO
	SYS_SCHED_GETAFFINITY            = real.SYS_SCHED_GETAFFINITY
	SYS_SCHED_GETPARAM               = real.SYS_SCHED_GETPARAM
	SYS_SCHED_GETSCHEDULER           = real.SYS_SCHED_GETSCHEDULER
	SYS_SCHED_GET_PRIORITY_MAX       = real.SYS_SCHED_GET_PRIORITY_MAX
	SYS_SCHED_GET_PRIORITY_MIN       = real.SYS_SCHED_GET_PRIORITY_MIN
	SYS_SCHED_RR_GET_INTERVAL        = real.SYS_SCHED_RR_GET_INTERVAL
	SYS_SCHED_SETAFFINITY            = real.SYS_SCHED_SETAFFINITY
	SYS_SCHED_SETPARAM               = real.SYS_SCHED_SETPARAM
	SYS_SCHED_SETSCHEDULER           = real.SYS_SCHED_SETSCHEDULER
	SYS_SCHED_YIELD                  = real.SYS_SCHED_YIELD
	SYS_SECURITY                     = real.SYS_SECURITY
	SYS_SELECT                       = real.SYS_SELECT
	SYS_SEMCTL                       = real.SYS_SEMCTL
	SYS_SEMGET                       = real.SYS_SEMGET
	SYS_SEMOP                        = real.SYS_SEMOP
	SYS_SEMTIMEDOP                   = real.SYS_SEMTIMEDOP
	SYS_SENDFILE                     = real.SYS_SENDFILE
	SYS_SENDMSG                      = real.SYS_SENDMSG
	SYS_SENDTO                       = real.SYS_SENDTO
	SYS_SETDOMAINNAME                = real.SYS_SETDOMAINNAME
	SYS_SETFSGID                     = real.SYS_SETFSGID
	SYS_SETFSUID                     = real.SYS_SETFSUID
	SYS_SETGID                       = real.SYS_SETGID
	SYS_SETGROUPS                    = real.SYS_SETGROUPS
	SYS_SETHOSTNAME                  = real.SYS_SETHOSTNAME
	SYS_SETITIMER                    = real.SYS_SETITIMER
	SYS_SETPGID                      = real.SYS_SETPGID
	SYS_SETPRIORITY                  = real.SYS_SETPRIORITY
	SYS_SETREGID                     = real.SYS_SETREGID
	SYS_SETRESGID                    = real.SYS_SETRESGID
	SYS_SETRESUID                    = real.SYS_SETRESUID
	SYS_SETREUID                     = real.SYS_SETREUID
	SYS_SETRLIMIT                    = real.SYS_SETRLIMIT
	SYS_SETSID                       = real.SYS_SETSID
	SYS_SETSOCKOPT                   = real.SYS_SETSOCKOPT
	SYS_SETTIMEOFDAY                 = real.SYS_SETTIMEOFDAY
	SYS_SETUID                       = real.SYS_SETUID
	SYS_SETXATTR                     = real.SYS_SETXATTR
	SYS_SET_MEMPOLICY                = real.SYS_SET_MEMPOLICY
	SYS_SET_ROBUST_LIST              = real.SYS_SET_ROBUST_LIST
	SYS_SET_THREAD_AREA              = real.SYS_SET_THREAD_AREA
	SYS_SET_TID_ADDRESS              = real.SYS_SET_TID_ADDRESS
	SYS_SHMAT                        = real.SYS_SHMAT
	SYS_SHMCTL                       = real.SYS_SHMCTL
	SYS_SHMDT                        = real.SYS_SHMDT
	SYS_SHMGET                       = real.SYS_SHMGET
	SYS_SHUTDOWN                     = real.SYS_SHUTDOWN
	SYS_SIGALTSTACK                  = real.SYS_SIGALTSTACK
	SYS_SIGNALFD                     = real.SYS_SIGNALFD
	SYS_SIGNALFD4                    = real.SYS_SIGNALFD4
	SYS_SOCKET                       = real.SYS_SOCKET
	SYS_SOCKETPAIR                   = real.SYS_SOCKETPAIR
	SYS_SPLICE                       = real.SYS_SPLICE
	SYS_STAT                         = real.SYS_STAT
	SYS_STATFS                       = real.SYS_STATFS
	SYS_SWAPOFF                      = real.SYS_SWAPOFF
	SYS_SWAPON                       = real.SYS_SWAPON
	SYS_SYMLINK                      = real.SYS_SYMLINK
	SYS_SYMLINKAT                    = real.SYS_SYMLINKAT
	SYS_SYNC                         = real.SYS_SYNC
	SYS_SYNC_FILE_RANGE              = real.SYS_SYNC_FILE_RANGE
	SYS_SYSFS                        = real.SYS_SYSFS
	SYS_SYSINFO                      = real.SYS_SYSINFO
	SYS_SYSLOG                       = real.SYS_SYSLOG
	SYS_TEE                          = real.SYS_TEE
	SYS_TGKILL                       = real.SYS_TGKILL
	SYS_TIME                         = real.SYS_TIME
	SYS_TIMERFD_CREATE               = real.SYS_TIMERFD_CREATE
	SYS_TIMERFD_GETTIME              = real.SYS_TIMERFD_GETTIME
	SYS_TIMERFD_SETTIME              = real.SYS_TIMERFD_SETTIME
	SYS_TIMER_CREATE                 = real.SYS_TIMER_CREATE
	SYS_TIMER_DELETE                 = real.SYS_TIMER_DELETE
	SYS_TIMER_GETOVERRUN             = real.SYS_TIMER_GETOVERRUN
	SYS_TIMER_GETTIME                = real.SYS_TIMER_GETTIME
	SYS_TIMER_SETTIME                = real.SYS_TIMER_SETTIME
	SYS_TIMES                        = real.SYS_TIMES
	SYS_TKILL                        = real.SYS_TKILL
	SYS_TRUNCATE                     = real.SYS_TRUNCATE
	SYS_TUXCALL                      = real.SYS_TUXCALL
	SYS_UMASK                        = real.SYS_UMASK
	SYS_UMOUNT2                      = real.SYS_UMOUNT2
	SYS_UNAME                        = real.SYS_UNAME
	SYS_UNLINK                       = real.SYS_UNLINK
	SYS_UNLINKAT                     = real.SYS_UNLINKAT
	SYS_UNSHARE                      = real.SYS_UNSHARE
	SYS_USELIB                       = real.SYS_USELIB
	SYS_USTAT                        = real.SYS_USTAT
	SYS_UTIME                        = real.SYS_UTIME
	SYS_UTIMENSAT                    = real.SYS_UTIMENSAT
	SYS_UTIMES                       = real.SYS_UTIMES
	SYS_VFORK                        = real.SYS_VFORK
	SYS_VHANGUP                      = real.SYS_VHANGUP
	SYS_VMSPLICE                     = real.SYS_VMSPLICE
	SYS_VSERVER                      = real.SYS_VSERVER
	SYS_WAIT4                        = real.SYS_WAIT4
	SYS_WAITID                       = real.SYS_WAITID
	SYS_WRITE                        = real.SYS_WRITE
	SYS_WRITEV                       = real.SYS_WRITEV
	SYS__SYSCTL                      = real.SYS__SYSCTL
	S_BLKSIZE                        = real.S_BLKSIZE
	S_IEXEC                          = real.S_IEXEC
	S_IFBLK                          = real.S_IFBLK
	S_IFCHR                          = real.S_IFCHR
	S_IFDIR                          = real.S_IFDIR
	S_IFIFO                          = real.S_IFIFO
	S_IFLNK                          = real.S_IFLNK
	S_IFMT                           = real.S_IFMT
	S_IFREG                          = real.S_IFREG
	S_IFSOCK                         = real.S_IFSOCK
	S_IREAD                          = real.S_IREAD
	S_IRGRP                          = real.S_IRGRP
	S_IROTH                          = real.S_IROTH
	S_IRUSR                          = real.S_IRUSR
	S_IRWXG                          = real.S_IRWXG
	S_IRWXO                          = real.S_IRWXO
	S_IRWXU                          = real.S_IRWXU
	S_ISGID                          = real.S_ISGID
	S_ISUID                          = real.S_ISUID
	S_ISVTX                          = real.S_ISVTX
	S_IWGRP                          = real.S_IWGRP
	S_IWOTH                          = real.S_IWOTH
	S_IWRITE                         = real.S_IWRITE
	S_IWUSR                          = real.S_IWUSR
	S_IXGRP                          = real.S_IXGRP
	S_IXOTH                          = real.S_IXOTH
	S_IXUSR                          = real.S_IXUSR
	SizeofCmsghdr                    = real.SizeofCmsghdr
	SizeofICMPv6Filter               = real.SizeofICMPv6Filter
	SizeofIPMreq                     = real.SizeofIPMreq
	SizeofIPMreqn                    = real.SizeofIPMreqn
	SizeofIPv6MTUInfo                = real.SizeofIPv6MTUInfo
	SizeofIPv6Mreq                   = real.SizeofIPv6Mreq
	SizeofIfAddrmsg                  = real.SizeofIfAddrmsg
	SizeofIfInfomsg                  = real.SizeofIfInfomsg
	SizeofInet4Pktinfo               = real.SizeofInet4Pktinfo
	SizeofInet6Pktinfo               = real.SizeofInet6Pktinfo
	SizeofInotifyEvent               = real.SizeofInotifyEvent
	SizeofLinger                     = real.SizeofLinger
	SizeofMsghdr                     = real.SizeofMsghdr
	SizeofNlAttr                     = real.SizeofNlAttr
	SizeofNlMsgerr                   = real.SizeofNlMsgerr
	SizeofNlMsghdr                   = real.SizeofNlMsghdr
	SizeofRtAttr                     = real.SizeofRtAttr
	SizeofRtGenmsg                   = real.SizeofRtGenmsg
	SizeofRtMsg                      = real.SizeofRtMsg
	SizeofRtNexthop                  = real.SizeofRtNexthop
	SizeofSockFilter                 = real.SizeofSockFilter
	SizeofSockFprog                  = real.SizeofSockFprog
	SizeofSockaddrAny                = real.SizeofSockaddrAny
	SizeofSockaddrInet4              = real.SizeofSockaddrInet4
	SizeofSockaddrInet6              = real.SizeofSockaddrInet6
	SizeofSockaddrLinklayer          = real.SizeofSockaddrLinklayer
	SizeofSockaddrNetlink            = real.SizeofSockaddrNetlink
	SizeofSockaddrUnix               = real.SizeofSockaddrUnix
	SizeofTCPInfo                    = real.SizeofTCPInfo
	SizeofUcred                      = real.SizeofUcred
	TCGETS                           = real.TCGETS
	TCIFLUSH                         = real.TCIFLUSH
	TCIOFLUSH                        = real.TCIOFLUSH
	TCOFLUSH                         = real.TCOFLUSH
	TCP_CONGESTION                   = real.TCP_CONGESTION
	TCP_CORK                         = real.TCP_CORK
	TCP_DEFER_ACCEPT                 = real.TCP_DEFER_ACCEPT
	TCP_INFO                         = real.TCP_INFO
	TCP_KEEPCNT                      = real.TCP_KEEPCNT
	TCP_KEEPIDLE                     = real.TCP_KEEPIDLE
	TCP_KEEPINTVL                    = real.TCP_KEEPINTVL
	TCP_LINGER2                      = real.TCP_LINGER2
	TCP_MAXSEG                       = real.TCP_MAXSEG
	TCP_MAXWIN                       = real.TCP_MAXWIN
	TCP_MAX_WINSHIFT                 = real.TCP_MAX_WINSHIFT
	TCP_MD5SIG                       = real.TCP_MD5SIG
	TCP_MD5SIG_MAXKEYLEN             = real.TCP_MD5SIG_MAXKEYLEN
	TCP_MSS                          = real.TCP_MSS
	TCP_NODELAY                      = real.TCP_NODELAY
	TCP_QUICKACK                     = real.TCP_QUICKACK
	TCP_SYNCNT                       = real.TCP_SYNCNT
	TCP_WINDOW_CLAMP                 = real.TCP_WINDOW_CLAMP
	TCSETS                           = real.TCSETS
	TIOCCBRK                         = real.TIOCCBRK
	TIOCCONS                         = real.TIOCCONS
	TIOCEXCL                         = real.TIOCEXCL
	TIOCGDEV                         = real.TIOCGDEV
	TIOCGETD                         = real.TIOCGETD
	TIOCGICOUNT                      = real.TIOCGICOUNT
	TIOCGLCKTRMIOS                   = real.TIOCGLCKTRMIOS
	TIOCGPGRP                        = real.TIOCGPGRP
	TIOCGPTN                         = real.TIOCGPTN
	TIOCGRS485                       = real.TIOCGRS485
	TIOCGSERIAL                      = real.TIOCGSERIAL
	TIOCGSID                         = real.TIOCGSID
	TIOCGSOFTCAR                     = real.TIOCGSOFTCAR
	TIOCGWINSZ                       = real.TIOCGWINSZ
	TIOCINQ                          = real.TIOCINQ
	TIOCLINUX                        = real.TIOCLINUX
	TIOCMBIC                         = real.TIOCMBIC
	TIOCMBIS                         = real.TIOCMBIS
	TIOCMGET                         = real.TIOCMGET
	TIOCMIWAIT                       = real.TIOCMIWAIT
	TIOCMSET                         = real.TIOCMSET
	TIOCM_CAR                        = real.TIOCM_CAR
	TIOCM_CD                         = real.TIOCM_CD
	TIOCM_CTS                        = real.TIOCM_CTS
	TIOCM_DSR                        = real.TIOCM_DSR
	TIOCM_DTR                        = real.TIOCM_DTR
	TIOCM_LE                         = real.TIOCM_LE
	TIOCM_RI                         = real.TIOCM_RI
	TIOCM_RNG                        = real.TIOCM_RNG
	TIOCM_RTS                        = real.TIOCM_RTS
	TIOCM_SR                         = real.TIOCM_SR
	TIOCM_ST                         = real.TIOCM_ST
	TIOCNOTTY                        = real.TIOCNOTTY
	TIOCNXCL                         = real.TIOCNXCL
	TIOCOUTQ                         = real.TIOCOUTQ
	TIOCPKT                          = real.TIOCPKT
	TIOCPKT_DATA                     = real.TIOCPKT_DATA
	TIOCPKT_DOSTOP                   = real.TIOCPKT_DOSTOP
	TIOCPKT_FLUSHREAD                = real.TIOCPKT_FLUSHREAD
	TIOCPKT_FLUSHWRITE               = real.TIOCPKT_FLUSHWRITE
	TIOCPKT_IOCTL                    = real.TIOCPKT_IOCTL
	TIOCPKT_NOSTOP                   = real.TIOCPKT_NOSTOP
	TIOCPKT_START                    = real.TIOCPKT_START
	TIOCPKT_STOP                     = real.TIOCPKT_STOP
	TIOCSBRK                         = real.TIOCSBRK
	TIOCSCTTY                        = real.TIOCSCTTY
	TIOCSERCONFIG                    = real.TIOCSERCONFIG
	TIOCSERGETLSR                    = real.TIOCSERGETLSR
	TIOCSERGETMULTI                  = real.TIOCSERGETMULTI
	TIOCSERGSTRUCT                   = real.TIOCSERGSTRUCT
	TIOCSERGWILD                     = real.TIOCSERGWILD
	TIOCSERSETMULTI                  = real.TIOCSERSETMULTI
	TIOCSERSWILD                     = real.TIOCSERSWILD
	TIOCSER_TEMT                     = real.TIOCSER_TEMT
	TIOCSETD                         = real.TIOCSETD
	TIOCSIG                          = real.TIOCSIG
	TIOCSLCKTRMIOS                   = real.TIOCSLCKTRMIOS
	TIOCSPGRP                        = real.TIOCSPGRP
	TIOCSPTLCK                       = real.TIOCSPTLCK
	TIOCSRS485                       = real.TIOCSRS485
	TIOCSSERIAL                      = real.TIOCSSERIAL
	TIOCSSOFTCAR                     = real.TIOCSSOFTCAR
	TIOCSTI                          = real.TIOCSTI
	TIOCSWINSZ                       = real.TIOCSWINSZ
	TOSTOP                           = real.TOSTOP
	TUNATTACHFILTER                  = real.TUNATTACHFILTER
	TUNDETACHFILTER                  = real.TUNDETACHFILTER
	TUNGETFEATURES                   = real.TUNGETFEATURES
	TUNGETIFF                        = real.TUNGETIFF
	TUNGETSNDBUF                     = real.TUNGETSNDBUF
	TUNGETVNETHDRSZ                  = real.TUNGETVNETHDRSZ
	TUNSETDEBUG                      = real.TUNSETDEBUG
	TUNSETGROUP                      = real.TUNSETGROUP
	TUNSETIFF                        = real.TUNSETIFF
	TUNSETLINK                       = real.TUNSETLINK
	TUNSETNOCSUM                     = real.TUNSETNOCSUM
	TUNSETOFFLOAD                    = real.TUNSETOFFLOAD
	TUNSETOWNER                      = real.TUNSETOWNER
	TUNSETPERSIST                    = real.TUNSETPERSIST
	TUNSETSNDBUF                     = real.TUNSETSNDBUF
	TUNSETTXFILTER                   = real.TUNSETTXFILTER
	TUNSETVNETHDRSZ                  = real.TUNSETVNETHDRSZ
	VDISCARD                         = real.VDISCARD
	VEOF                             = real.VEOF
	VEOL                             = real.VEOL
	VEOL2                            = real.VEOL2
	VERASE                           = real.VERASE
	VINTR                            = real.VINTR
	VKILL                            = real.VKILL
	VLNEXT                           = real.VLNEXT
	VMIN                             = real.VMIN
	VQUIT                            = real.VQUIT
	VREPRINT                         = real.VREPRINT
	VSTART                           = real.VSTART
	VSTOP                            = real.VSTOP
	VSUSP                            = real.VSUSP
	VSWTC                            = real.VSWTC
	VTIME                            = real.VTIME
	VWERASE                          = real.VWERASE
	WALL                             = real.WALL
	WCLONE                           = real.WCLONE
	WCONTINUED                       = real.WCONTINUED
	WEXITED                          = real.WEXITED
	WNOHANG                          = real.WNOHANG
	WNOTHREAD                        = real.WNOTHREAD
	WNOWAIT                          = real.WNOWAIT
	WORDSIZE                         = real.WORDSIZE
	WSTOPPED                         = real.WSTOPPED
	WUNTRACED                        = real.WUNTRACED
	XCASE                            = real.XCASE
)

type (
	Cmsghdr              = real.Cmsghdr
	Conn                 = real.Conn
	Credential           = real.Credential
	Dirent               = real.Dirent
	EpollEvent           = real.EpollEvent
	Errno                = real.Errno
	FdSet                = real.FdSet
	Flock_t              = real.Flock_t
	Fsid                 = real.Fsid
	ICMPv6Filter         = real.ICMPv6Filter
	IPMreq               = real.IPMreq
	IPMreqn              = real.IPMreqn
	IPv6MTUInfo          = real.IPv6MTUInfo
	IPv6Mreq             = real.IPv6Mreq
	IfAddrmsg            = real.IfAddrmsg
	IfInfomsg            = real.IfInfomsg
	Inet4Pktinfo         = real.Inet4Pktinfo
	Inet6Pktinfo         = real.Inet6Pktinfo
	InotifyEvent         = real.InotifyEvent
	Iovec                = real.Iovec
	Linger               = real.Linger
	Msghdr               = real.Msghdr
	NetlinkMessage       = real.NetlinkMessage
	NetlinkRouteAttr     = real.NetlinkRouteAttr
	NetlinkRouteRequest  = real.NetlinkRouteRequest
	NlAttr               = real.NlAttr
	NlMsgerr             = real.NlMsgerr
	NlMsghdr             = real.NlMsghdr
	ProcAttr             = real.ProcAttr
	PtraceRegs           = real.PtraceRegs
	RawConn              = real.RawConn
	RawSockaddr          = real.RawSockaddr
	RawSockaddrAny       = real.RawSockaddrAny
	RawSockaddrInet4     = real.RawSockaddrInet4
	RawSockaddrInet6     = real.RawSockaddrInet6
	RawSockaddrLinklayer = real.RawSockaddrLinklayer
	RawSockaddrNetlink   = real.RawSockaddrNetlink
	RawSockaddrUnix      = real.RawSockaddrUnix
	Rlimit               = real.Rlimit
	RtAttr               = real.RtAttr
	RtGenmsg             = real.RtGenmsg
	RtMsg                = real.RtMsg
	RtNexthop            = real.RtNexthop
	Rusage               = real.Rusage
	Signal               = real.Signal
	SockFilter           = real.SockFilter
	SockFprog            = real.SockFprog
	Sockaddr             = real.Sockaddr
	SockaddrInet4        = real.SockaddrInet4
	SockaddrInet6        = real.SockaddrInet6
	SockaddrLinklayer    = real.SockaddrLinklayer
	SockaddrNetlink      = real.SockaddrNetlink
	SockaddrUnix         = real.SockaddrUnix
	SocketControlMessage = real.SocketControlMessage
	Stat_t               = real.Stat_t
	Statfs_t             = real.Statfs_t
	SysProcAttr          = real.SysProcAttr
	SysProcIDMap         = real.SysProcIDMap
	Sysinfo_t            = real.Sysinfo_t
	TCPInfo              = real.TCPInfo
	Termios              = real.Termios
	Time_t               = real.Time_t
	Timespec             = real.Timespec
	Timeval              = real.Timeval
	Timex                = real.Timex
	Tms                  = real.Tms
	Ucred                = real.Ucred
	Ustat_t              = real.Ustat_t
	Utimbuf              = real.Utimbuf
	Utsname              = real.Utsname
	WaitStatus           = real.WaitStatus
)

var (
	BytePtrFromString   = real.BytePtrFromString
	ByteSliceFromString = real.ByteSliceFromString
	ForkLock            = real.ForkLock
	NsecToTimespec      = real.NsecToTimespec
	NsecToTimeval       = real.NsecToTimeval
	SocketDisableIPv6   = real.SocketDisableIPv6
	Stderr              = real.Stderr
	Stdin               = real.Stdin
	Stdout              = real.Stdout
	StringByteSlice     = real.StringByteSlice
	TimespecToNsec      = real.TimespecToNsec
	TimevalToNsec       = real.TimevalToNsec
)
